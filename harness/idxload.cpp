// Loads damaged variants of an index, each in a child process.
// usage: idxload DIR   reads lines from stdin: "x OFF XOR [OFF XOR...]" "t LEN" "z FROM LEN VAL"
//                      "h HEX" (whole file) "n" (unchanged) "m" (no file)
// writes one line per variant: "refused", "loaded <digest>", "crash <status>", "hang"
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
#include <exception>
#include <fstream>
#include <iostream>
#include <iterator>
#include <sstream>
#include <string>
#include "mws/index/IndexAccessor.hpp"
#include "mws/index/IndexIterator.hpp"
#include "mws/index/IndexLoader.hpp"
#include "build-gen/config.h"
using namespace mws::index;

static int child(const std::string& dir, int fd) {
    try {
        LoadingOptions o;
        o.includeHits = false;
        IndexLoader loader(dir, o);
        index_handle_t* h = loader.getIndexHandle();
        uint64_t digest = 1469598103934665603ULL;
        IndexIterator<IndexAccessor> it(h);
        while (auto leaf = (const leaf_t*)it.next()) {
            digest = (digest ^ leaf->formula_id) * 1099511628211ULL;
            digest = (digest ^ leaf->num_hits) * 1099511628211ULL;
        }
        ssize_t r = write(fd, &digest, sizeof(digest));
        (void)r;
        return 0;
    } catch (const std::exception& e) {
        return 10;
    }
}

int main(int argc, char** argv) {
    std::string dir = argv[1];
    std::string file = dir + "/" + INDEX_MEMSECTOR_FILE;
    std::string orig;
    {
        std::ifstream f(file.c_str(), std::ios::binary);
        orig.assign(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
    }
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        char op;
        in >> op;
        std::string c = orig;
        if (op == 'x') {
            size_t off;
            unsigned v;
            while (in >> off >> v) c[off] ^= (char)v;
        } else if (op == 't') {
            size_t n;
            in >> n;
            c.resize(n);
        } else if (op == 'z') {
            size_t a, n;
            unsigned v;
            in >> a >> n >> v;
            for (size_t i = a; i < a + n && i < c.size(); i++) c[i] = (char)v;
        } else if (op == 'h') {
            std::string hex;
            in >> hex;
            c.clear();
            for (size_t i = 0; i + 1 < hex.size(); i += 2)
                c += (char)strtoul(hex.substr(i, 2).c_str(), nullptr, 16);
        }
        unlink(file.c_str());
        if (op != 'm') {
            std::ofstream f(file.c_str(), std::ios::binary);
            f << c;
        }
        int p[2];
        if (pipe(p)) return 3;
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            alarm(20);
            int dn = open("/dev/null", O_WRONLY);
            dup2(dn, 1);
            if (!getenv("IDXLOAD_STDERR")) dup2(dn, 2);
            _exit(child(dir, p[1]));
        }
        close(p[1]);
        uint64_t digest = 0;
        ssize_t r = read(p[0], &digest, sizeof(digest));
        close(p[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 10) puts("refused");
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && r == 8)
            printf("loaded %llx%s\n", (unsigned long long)digest, c == orig ? " same" : "");
        else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) puts("hang");
        else printf("crash %x\n", st);
    }
    return 0;
}
