// Writes a tree of nodes with gaps between them (the file is sparse) and reads it back.
// usage: longlink FILE "children,gap,seed;..."   Node i has leaves and links to earlier nodes.
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <string>
#include <vector>
#include "mws/index/index.h"
#include "mws/index/IndexAccessor.hpp"
using namespace mws::index;

struct Ent { uint32_t id; bool leaf; uint32_t fid; size_t node; };

static int fail(const char* m, size_t i, size_t j) {
    printf("FAIL %s node %zu entry %zu\n", m, i, j);
    return 1;
}

int main(int argc, char** argv) {
    memsector_writer_t w;
    if (memsector_create(&w, argv[1]) != 0) return 2;
    std::vector<uint64_t> nodeOff;
    std::vector<std::vector<Ent>> nodes;
    std::string spec = argv[2];
    char* save = nullptr;
    for (char* tok = strtok_r(&spec[0], ";", &save); tok; tok = strtok_r(nullptr, ";", &save)) {
        unsigned long k, gap, seed;
        if (sscanf(tok, "%lu,%lu,%lu", &k, &gap, &seed) != 3) return 2;
        std::vector<Ent> ents;
        std::vector<uint64_t> offs;
        size_t i = nodes.size();
        for (unsigned long j = 0; j < k; j++) {
            Ent e;
            e.id = 161 + j;
            seed = seed * 1103515245 + 12345;
            e.leaf = i == 0 || (seed >> 8) % 2;
            e.fid = (uint32_t)(seed % 100000 + 1);
            e.node = i ? (seed >> 4) % i : 0;
            ents.push_back(e);
        }
        // children are written in the order of their offsets, as the exporter does: older
        // nodes first
        std::stable_sort(ents.begin(), ents.end(), [](const Ent& a, const Ent& b) {
            if (a.leaf != b.leaf) return !a.leaf;
            return !a.leaf && a.node < b.node;
        });
        for (unsigned long j = 0; j < k; j++) ents[j].id = 161 + j;
        for (auto& e : ents)
            offs.push_back(e.leaf ? (uint64_t)memsector_write_leaf(&w, e.fid % 1000 + 1, e.fid)
                                  : nodeOff[e.node]);
        // leave a gap
        gap -= gap % 4;
        if (gap) {
            if (fseeko(w.file, (off_t)gap, SEEK_CUR) != 0) return 2;
            w.offset += gap;
        }
        uint64_t expectOff = w.offset / 4;
        uint64_t me = memsector_write_inode_begin(&w, k, offs.front());
        if (me != expectOff) return fail("offset of node truncated", i, 0);
        for (unsigned long j = 0; j < k; j++)
            memsector_write_inode_encoded_token_entry(&w, encoded_token(ents[j].id, 0),
                                                      me - offs[j]);
        memsector_write_inode_end(&w);
        nodeOff.push_back(me);
        nodes.push_back(ents);
    }
    uint64_t size = w.offset;
    if (memsector_save(&w, nodeOff.back()) != 0) return fail("save", 0, 0);
    int fd = open(argv[1], O_RDONLY);
    struct stat s;
    if (fstat(fd, &s) != 0 || (uint64_t)s.st_size != size) return fail("file size", 0, 0);
    void* m = mmap(nullptr, size, PROT_READ, MAP_SHARED | MAP_NORESERVE, fd, 0);
    if (m == MAP_FAILED) return 2;
    memsector_header_t* hdr = (memsector_header_t*)m;
    if (hdr->index_size != size - sizeof(*hdr)) return fail("index_size", 0, 0);
    index_handle_t ih;
    ih.ms = hdr;
    memsector_handle_t mh;
    mh.ms = hdr;
    ih.root = memsector_get_root(&mh);
    if ((char*)ih.root != (char*)m + 4 * nodeOff.back()) return fail("root", 0, 0);
    for (size_t i = 0; i < nodes.size(); i++) {
        IndexAccessor::Node* n =
            (IndexAccessor::Node*)memsector_off2addr(hdr, nodeOff[i]);
        auto it = IndexAccessor::getChildrenIterator(n);
        for (size_t j = 0; j < nodes[i].size(); j++) {
            Ent& e = nodes[i][j];
            const char* want = nullptr;
            IndexAccessor::Node* c =
                IndexAccessor::getChild(&ih, n, encoded_token(e.id, 0));
            if (c == nullptr) return fail("child not found", i, j);
            if (e.leaf) {
                const leaf_t* l = (const leaf_t*)c;
                if (l->type != LEAF_NODE || l->formula_id != e.fid ||
                    l->num_hits != e.fid % 1000 + 1)
                    return fail("wrong leaf", i, j);
            } else if ((char*)c != (char*)m + 4 * nodeOff[e.node]) {
                return fail("wrong node", i, j);
            }
            encoded_token_t t = IndexAccessor::getToken(it);
            if (t.id != e.id) return fail("iterator token", i, j);
            if (IndexAccessor::getNode(&ih, it) != c) return fail("iterator node", i, j);
            if (j + 1 < nodes[i].size()) {
                if (!it.hasNext()) return fail("iterator ends early", i, j);
                it.next();
            } else if (it.hasNext()) {
                return fail("iterator does not end", i, j);
            }
        }
        if (IndexAccessor::getChild(&ih, n, encoded_token(161 + nodes[i].size(), 0)))
            return fail("unexpected child", i, 0);
    }
    munmap(m, size);
    close(fd);
    unlink(argv[1]);
    puts("ok");
    return 0;
}
