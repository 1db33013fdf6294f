// An analytics program that writes down what it is shown: one line per expression with its number
// of hits, depth, size and preorder list of arity, tag and text (hex). $STOP: stop after so many.
#include <cstdio>
#include <cstdlib>
#include <string>
#include "mws/analytics/analytics.hpp"

namespace mws {
namespace analytics {

static long shown, stop = -1;

static void hex(const std::string& s) {
    for (unsigned char c : s) printf("%02x", c);
}

static void dump(const types::CmmlToken* t) {
    printf(" %zu:", t->getChildNodes().size());
    hex(t->getTag());
    printf(":");
    hex(t->getTextContent());
    for (auto c : t->getChildNodes()) dump(c);
}

AnalyticsStatus analyze_begin(const index_handle_t*, const inode_t* root) {
    printf("begin %llu\n", (unsigned long long)root->size);
    if (getenv("STOP")) stop = atol(getenv("STOP"));
    return stop == 0 ? ANALYTICS_STOP : ANALYTICS_OK;
}

AnalyticsStatus analyze_expression(const types::CmmlToken* t, uint32_t hits) {
    printf("%u %u %u", hits, t->getExprDepth(), t->getExprSize());
    dump(t);
    printf("\n");
    return ++shown == stop ? ANALYTICS_STOP : ANALYTICS_OK;
}

void analyze_end() { printf("end\n"); }

}  // namespace analytics
}  // namespace mws
