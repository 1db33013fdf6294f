// rebuild OUT HARVESTDIR [keep]: what mwsd -f does when it has to build an index itself
#include <string>
#include <string.h>
#include "mws/index/IndexWriter.hpp"
int main(int argc, char** argv) {
    mws::index::IndexConfiguration c;
    c.dataPath = argv[1];
    c.harvester.paths.push_back(argv[2]);
    c.harvester.fileExtension = "harvest";
    c.deleteOldData = argc < 4;
    return mws::index::createCompressedIndex(c);
}
