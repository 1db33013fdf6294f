// Drives the stores and the dictionary over a command list from stdin; strings are hex encoded.
//   stores DIR
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "mws/dbc/DbQueryManager.hpp"
#include "mws/dbc/LevCrawlDb.hpp"
#include "mws/dbc/LevFormulaDb.hpp"
#include "mws/dbc/MemCrawlDb.hpp"
#include "mws/dbc/MemFormulaDb.hpp"
#include "mws/index/MeaningDictionary.hpp"
#include "mws/types/FormulaPath.hpp"
using namespace mws;
using namespace mws::dbc;
using std::string;

static string unhex(const string& h) {
    string out;
    for (size_t i = 1; i + 1 < h.size(); i += 2)  // leading dot
        out += (char)strtoul(h.substr(i, 2).c_str(), nullptr, 16);
    return out;
}

static string hex(const string& s) {
    static const char* D = "0123456789abcdef";
    string out = ".";
    for (unsigned char c : s) {
        out += D[c >> 4];
        out += D[c & 15];
    }
    return out;
}

struct Env {
    string dir;
    bool disk;
    std::unique_ptr<FormulaDb> f;
    std::unique_ptr<CrawlDb> c;

    void create(bool deleteIfExists) {
        f.reset();
        c.reset();
        if (!disk) {
            f.reset(new MemFormulaDb());
            c.reset(new MemCrawlDb());
            return;
        }
        std::unique_ptr<LevFormulaDb> lf(new LevFormulaDb());
        std::unique_ptr<LevCrawlDb> lc(new LevCrawlDb());
        lf->create_new((dir + "/f").c_str(), deleteIfExists);
        lc->create_new((dir + "/c").c_str(), deleteIfExists);
        f = std::move(lf);
        c = std::move(lc);
    }
    void reopen() {
        if (!disk) return;
        f.reset();
        c.reset();
        std::unique_ptr<LevFormulaDb> lf(new LevFormulaDb());
        std::unique_ptr<LevCrawlDb> lc(new LevCrawlDb());
        lf->open((dir + "/f").c_str());
        lc->open((dir + "/c").c_str());
        f = std::move(lf);
        c = std::move(lc);
    }
};

static string command(Env* e, const string& op, std::istringstream* in) {
    std::ostringstream out;
    if (op == "new" || op == "newdel") {
        e->create(op == "newdel");
        return "ok";
    } else if (op == "reopen") {
        e->reopen();
        return "ok";
    } else if (op == "insert") {
        unsigned fid, cid;
        string url, xpath;
        *in >> fid >> cid >> url >> xpath;
        out << e->f->insertFormula(fid, cid, types::FormulaPath(unhex(url), unhex(xpath)));
    } else if (op == "query") {
        unsigned fid, min, size;
        int stop;
        *in >> fid >> min >> size >> stop;
        std::vector<string> got;
        int rc = e->f->queryFormula(fid, min, size,
                                    [&](const CrawlId& cid, const types::FormulaPath& p) {
            got.push_back(std::to_string(cid) + "," + hex(p.xmlId) + "," + hex(p.xpath));
            return stop > 0 && (int)got.size() == stop ? 1 : 0;
        });
        out << rc;
        for (auto& s : got) out << " " << s;
    } else if (op == "manager") {
        unsigned fid, min, size;
        *in >> fid >> min >> size;
        std::vector<string> got;
        DbQueryManager m(e->c.get(), e->f.get());
        int rc = m.query(fid, min, size, [&](const types::FormulaPath& p, const CrawlData& d) {
            got.push_back(hex(d) + "," + hex(p.xmlId) + "," + hex(p.xpath));
            return 0;
        });
        out << rc;
        for (auto& s : got) out << " " << s;
    } else if (op == "put") {
        string data;
        *in >> data;
        out << e->c->putData(unhex(data));
    } else if (op == "get") {
        unsigned id;
        *in >> id;
        out << hex(e->c->getData(id));
    } else {
        return "bad command";
    }
    return out.str();
}

static int dictionary(const string& dir) {
    typedef mws::index::MeaningDictionary Dict;
    std::unique_ptr<Dict> d(new Dict());
    string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        string op, arg;
        in >> op >> arg;
        try {
            if (op == "put") {
                std::cout << "> " << d->put(unhex(arg)) << "\n";
            } else if (op == "get") {
                auto id = d->get(unhex(arg));
                if (id == Dict::KEY_NOT_FOUND + 0) {
                    std::cout << "> unknown\n";
                } else {
                    std::cout << "> " << id << "\n";
                }
            } else if (op == "reverse") {
                string symbol = d->getReverseLookupTable().get(atol(arg.c_str()));
                std::cout << "> " << hex(symbol) << "\n";
            } else if (op == "reload") {
                string path = dir + "/dict";
                std::ofstream o(path.c_str(), std::ios::binary);
                int rc = d->save(o);
                o.close();
                d.reset(new Dict(path));
                std::cout << "> " << rc << "\n";
            } else if (op == "missing") {
                Dict other(dir + "/nowhere");
                std::cout << "> loaded\n";
            } else {
                std::cout << "> bad command\n";
            }
        }
        catch (const std::exception& x) {
            std::cout << "> error\n";
        }
    }
    return 0;
}

int main(int argc, char** argv) {
    if (!strcmp(argv[1], "dict")) return dictionary(argv[2]);
    Env e;
    e.disk = !strcmp(argv[1], "disk");
    e.dir = argv[2];
    string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        string op;
        in >> op;
        string r;
        try {
            r = command(&e, op, &in);
        }
        catch (const std::exception& x) {
            r = "error";
        }
        std::cout << "> " << r << "\n";
    }
    return 0;
}
