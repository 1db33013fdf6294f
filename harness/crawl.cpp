// Runs crawls in one process. A line of stdin is a crawl:
//   start url TAB count or empty TAB data directory (TAB url not to crawl)*
// bytes are written %XX where they are not plain. "\001done" on stdout ends each.
#include <stdio.h>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

#include "crawler/crawler/MwsCrawler.hpp"

static std::string plain(const std::string& s) {
    std::string r;
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] == '%' && i + 2 < s.size()) {
            r.push_back((char)std::stoi(s.substr(i + 1, 2), nullptr, 16));
            i += 2;
        } else {
            r.push_back(s[i]);
        }
    }
    return r;
}

int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::vector<std::string> f;
        std::stringstream in(line);
        std::string x;
        while (std::getline(in, x, '\t')) f.push_back(plain(x));
        {
            mws::Crawler c;
            c.addURLStart(f[0]);
            if (!f[1].empty()) c.addCrawlerCount(std::stoi(f[1]));
            for (size_t i = 3; i < f.size(); i++) c.dontCrawl(f[i]);
            c.addDataDirectory(f[2].c_str());
            c.start();
        }
        std::cout << "\n\001done" << std::endl;
    }
    return 0;
}
