// Builds a saved index with unused space inside it, as if it held very many
// more formulas, and answers queries from it with both query engines.
//
//   drive_bigindex HARVESTS INDEX QUERIES OUT [leaf:bytes]...
//
// After the given number of leaves was written, the given number of bytes is
// skipped in the file (a hole, so it takes no space). Everything is written
// and read by the tree's own code: only memsector_write is wrapped, to leave
// the holes, and crc32, to take them for read without touching their pages.
// OUT/<engine>-<query file> gets the answer, OUT/leaves what iterating over
// the index sees, OUT/gaps the number of holes left.
#include <dirent.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include <algorithm>
#include <exception>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "mws/daemon/IndexQueryHandler.hpp"
#include "mws/index/IndexAccessor.hpp"
#include "mws/index/IndexIterator.hpp"
#include "mws/index/IndexLoader.hpp"
#include "mws/index/IndexWriter.hpp"
#include "mws/index/memsector.h"
#include "mws/types/GenericAnswer.hpp"
#include "mws/types/Query.hpp"
#include "mws/xmlparser/readMwsQuery.hpp"
#include "mws/xmlparser/xmlparser.hpp"

using std::string;
using std::unique_ptr;
using std::vector;

static std::map<unsigned long, uint64_t> gaps;  // leaf -> bytes
static vector<std::pair<uint64_t, uint64_t>> holes;  // file offset, bytes
static unsigned long nLeaves;
static uint64_t total;  // bytes of all holes

extern "C" {
void __real_memsector_write(memsector_writer_t*, void*, size_t);
uint32_t __real_crc32(uint32_t, const void*, size_t);

void __wrap_memsector_write(memsector_writer_t* w, void* data, size_t size) {
    bool alone = w->inode.entries_promised == 0;
    __real_memsector_write(w, data, size);
    // a node announces its children first, so this was a leaf
    if (!alone || size != sizeof(leaf_t)) return;
    if (((*static_cast<uint8_t*>(data)) & 3) != LEAF_NODE) return;
    auto g = gaps.find(nLeaves++);
    if (g == gaps.end()) return;
    if (fseek(w->file, g->second, SEEK_CUR) != 0) abort();
    holes.push_back({w->offset, g->second});
    w->offset += g->second;
    total += g->second;
}

uint32_t __wrap_crc32(uint32_t init, const void* p, size_t size) {
    if (holes.empty() || size < total) {
        return __real_crc32(init, p, size);
    }
    // the whole index is being read
    const char* b = static_cast<const char*>(p);
    uint64_t at = 0;
    for (auto& h : holes) {
        uint64_t to = h.first - sizeof(memsector_header_t);
        if (to < at || to + h.second > size) abort();
        init = __real_crc32(init, b + at, to - at);
        at = to + h.second;
    }
    return __real_crc32(init, b + at, size - at);
}
}

static FILE* out(const string& dir, const string& name) {
    FILE* f = fopen((dir + "/" + name).c_str(), "w");
    if (f == nullptr) abort();
    return f;
}

int main(int argc, char* argv[]) {
    if (argc < 5) return 2;
    const string queries = argv[3], res = argv[4];
    for (int i = 5; i < argc; i++) {
        char* e;
        unsigned long leaf = strtoul(argv[i], &e, 10);
        gaps[leaf] = strtoull(e + 1, nullptr, 10);
    }
    mws::parser::initxmlparser();

    mws::index::IndexConfiguration ic;
    ic.harvester.paths.push_back(argv[1]);
    ic.harvester.recursive = false;
    ic.harvester.fileExtension = "harvest";
    ic.harvester.shouldIgnoreData = false;
    ic.dataPath = argv[2];
    if (mws::index::createCompressedIndex(ic) != 0) {
        fprintf(stderr, "no index\n");
        return 3;
    }
    FILE* f = out(res, "gaps");
    fprintf(f, "%zu of %zu\n", holes.size(), gaps.size());
    fclose(f);

    vector<string> names;
    DIR* d = opendir(queries.c_str());
    if (d == nullptr) return 2;
    while (dirent* e = readdir(d)) {
        if (e->d_name[0] != '.') names.push_back(e->d_name);
    }
    closedir(d);
    std::sort(names.begin(), names.end());

    for (int engine = 0; engine < 2; engine++) {
        mws::daemon::IndexQueryHandler::Config qc;
        qc.encoding = ic.harvester.encoding;
        qc.useExperimentalQueryEngine = engine == 1;
        try {
            mws::daemon::IndexQueryHandler handler(ic.dataPath, qc);
            for (const string& n : names) {
                FILE* q = fopen((queries + "/" + n).c_str(), "r");
                if (q == nullptr) return 2;
                unique_ptr<mws::types::Query> query(
                    mws::xmlparser::readMwsQuery(
                        q, mws::xmlparser::QUERY_MWS));
                fclose(q);
                if (query == nullptr || query->tokens.size() == 0) return 2;
                unique_ptr<mws::GenericAnswer> ans(
                    handler.handleQuery(query.get()));
                if (ans == nullptr) return 4;
                f = out(res, (engine ? "exp-" : "std-") + n);
                query->responseFormatter->writeData(ans.get(), f);
                fclose(f);
            }
        } catch (const std::exception& e) {
            fprintf(stderr, "not served: %s\n", e.what());
            return 5;
        }
    }

    // what a program iterating over the index sees
    try {
        mws::index::LoadingOptions lo;
        lo.includeHits = false;
        mws::index::IndexLoader loader(ic.dataPath, lo);
        typedef mws::index::IndexAccessor A;
        mws::index::IndexIterator<A> it(
            loader.getIndexHandle(), A::getRootNode(loader.getIndexHandle()));
        f = out(res, "leaves");
        while (auto leaf = it.next()) {
            for (auto& e : it.getPath()) {
                encoded_token_t t = A::getToken(e);
                fprintf(f, "%u/%u ", static_cast<unsigned>(t.id),
                        static_cast<unsigned>(t.arity));
            }
            fprintf(f, ": %lu %lu\n",
                    static_cast<unsigned long>(A::getFormulaId(leaf)),
                    static_cast<unsigned long>(A::getHitsCount(leaf)));
        }
        fclose(f);
    } catch (const std::exception& e) {
        fprintf(stderr, "not loaded: %s\n", e.what());
        return 5;
    }
    printf("done\n");
    return 0;
}
