// Encodes expressions with a dictionary that is nearly full.
//   bigdict N     N symbols "cn#p<number>" are known; every line of stdin is "h" or "q" and the
//   contents of the <ci> and <cn> children of an <apply>; answers: the status and the token ids
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include "mws/index/ExpressionEncoder.hpp"
#include "mws/index/MeaningDictionary.hpp"
#include "mws/types/CmmlToken.hpp"
using namespace mws;
using namespace mws::index;
using std::string;

int main(int argc, char** argv) {
    MeaningDictionary dict;
    long n = atol(argv[1]);
    char name[40];
    for (long i = 1; i <= n; i++) {
        snprintf(name, sizeof(name), "cn#p%ld", i);
        dict.put(name);
    }
    string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        string how, s;
        in >> how;
        types::CmmlToken* root = types::CmmlToken::newRoot();
        root->setTag("apply");
        while (in >> s) {
            types::CmmlToken* c = root->newChildNode();
            c->setTag("cn");
            c->appendTextContent(s);
        }
        std::vector<encoded_token_t> out;
        ExpressionInfo info;
        ExpressionEncoder::Config config;
        int rv;
        if (how == "h") {
            HarvestEncoder e(&dict);
            rv = e.encode(config, root, &out, &info);
        } else {
            QueryEncoder e(&dict);
            rv = e.encode(config, root, &out, &info);
        }
        std::cout << rv;
        for (const encoded_token_t& t : out) std::cout << " " << (unsigned)t.id;
        std::cout << "\n";
        delete root;
    }
    std::cout.flush();
    _exit(0);
}
