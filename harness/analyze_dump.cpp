// User code for the analytics driver: prints every expression it is given.
// ANALYZE_STOP=n stops after n expressions (0: at the beginning).
#include <cstdio>
#include <cstdlib>
#include <string>

#include "mws/analytics/analytics.hpp"

namespace mws {
namespace analytics {

static long stop_after = -1;
static long seen = 0;

static void dump(const types::CmmlToken* t) {
    const std::string& text = t->getTextContent();
    printf("(%zu:%s %zu:%s", t->getTag().size(), t->getTag().c_str(),
           text.size(), text.c_str());
    for (auto c : t->getChildNodes()) dump(c);
    printf(")");
}

AnalyticsStatus analyze_begin(const index_handle_t*, const inode_t*) {
    const char* s = getenv("ANALYZE_STOP");
    if (s) stop_after = atol(s);
    printf("BEGIN\n");
    return stop_after == 0 ? ANALYTICS_STOP : ANALYTICS_OK;
}

AnalyticsStatus analyze_expression(const types::CmmlToken* token,
                                   uint32_t num_hits) {
    seen++;
    printf("EXPR %u %u %u ", num_hits, token->getExprDepth(),
           token->getExprSize());
    dump(token);
    printf("\n");
    return seen == stop_after ? ANALYTICS_STOP : ANALYTICS_OK;
}

void analyze_end() { printf("END\n"); }

}  // namespace analytics
}  // namespace mws
