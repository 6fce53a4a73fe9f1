// libFuzzer driver: one input = options byte, harvest bytes, and (after a
// separator) the body of a request. The harvest is loaded as mwsd -I does
// and asked the request; some inputs are also written to and served from a
// saved index, and the request is also classified as schemad does.
#include <dirent.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

#include <exception>
#include <memory>
#include <string>

#include "mws/daemon/HarvestQueryHandler.hpp"
#include "mws/daemon/IndexQueryHandler.hpp"
#include "mws/daemon/SchemaQueryHandler.hpp"
#include "mws/index/IndexWriter.hpp"
#include "mws/types/GenericAnswer.hpp"
#include "mws/types/Query.hpp"
#include "mws/xmlparser/readMwsQuery.hpp"
#include "mws/xmlparser/xmlparser.hpp"

using mws::types::Query;
using std::string;
using std::unique_ptr;

static const char SEP[] = "\n@@REQUEST@@\n";
static string dir;
static unsigned long nLoaded, nParsed, nAnswered, nSaved, nBytes, nSchema,
    nServed, nHits;

static void removeTree(const string& path) {
    DIR* d = opendir(path.c_str());
    if (d != nullptr) {
        while (dirent* e = readdir(d)) {
            string n = e->d_name;
            if (n == "." || n == "..") continue;
            removeTree(path + "/" + n);
        }
        closedir(d);
        rmdir(path.c_str());
    } else {
        unlink(path.c_str());
    }
}

static void report() {
    const char* path = getenv("FUZZ_STATS");
    FILE* f = path ? fopen(path, "w") : nullptr;
    if (f == nullptr) return;
    fprintf(f,
            "{\"harvests loaded\": %lu, \"requests parsed\": %lu, "
            "\"requests answered from memory\": %lu, \"indexes saved\": %lu, "
            "\"requests answered from saved indexes\": %lu, "
            "\"requests classified\": %lu, \"answer bytes\": %lu}\n",
            nLoaded, nParsed, nAnswered, nSaved, nServed, nSchema, nBytes);
    fclose(f);
}

extern "C" int LLVMFuzzerInitialize(int*, char***) {
    const char* d = getenv("FUZZ_DIR");
    dir = d ? d : "/tmp";
    mkdir((dir + "/in").c_str(), 0700);
    mws::parser::initxmlparser();
    FILE* null = fopen("/dev/null", "w");
    if (null != nullptr) dup2(fileno(null), 1);  // the programs' log
    atexit(report);
    return 0;
}

static void answer(mws::daemon::QueryHandler* handler, const char* body,
                   size_t size, mws::xmlparser::QueryMode mode,
                   unsigned long* n) {
    FILE* f = size ? fmemopen(const_cast<char*>(body), size, "r")
                   : fopen("/dev/null", "r");
    unique_ptr<Query> query(mws::xmlparser::readMwsQuery(f, mode));
    fclose(f);
    if (query == nullptr || query->tokens.size() == 0) return;
    nParsed++;
    unique_ptr<mws::GenericAnswer> ans(handler->handleQuery(query.get()));
    if (ans == nullptr) return;
    char* out = nullptr;
    size_t len = 0;
    FILE* o = open_memstream(&out, &len);
    query->responseFormatter->writeData(ans.get(), o);
    fclose(o);
    nBytes += len;
    free(out);
    (*n)++;
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
    if (size == 0) return 0;
    uint8_t opt = data[0];
    const char* text = reinterpret_cast<const char*>(data) + 1;
    size_t len = size - 1;
    const char* body = "";
    size_t bodyLen = 0;
    void* sep = memmem(text, len, SEP, sizeof(SEP) - 1);
    if (sep != nullptr) {
        size_t at = static_cast<const char*>(sep) - text;
        body = text + at + sizeof(SEP) - 1;
        bodyLen = len - at - (sizeof(SEP) - 1);
        len = at;
    }
    // a copy without slack, so that overruns are seen
    unique_ptr<char[]> copy(new char[bodyLen]);
    memcpy(copy.get(), body, bodyLen);

    const string file = dir + "/in/f.harvest";
    FILE* f = fopen(file.c_str(), "w");
    if (f == nullptr) abort();
    fwrite(text, 1, len, f);
    fclose(f);

    mws::index::HarvesterConfiguration hc;
    hc.paths.push_back(dir + "/in");
    hc.recursive = false;
    hc.fileExtension = "harvest";
    hc.shouldIgnoreData = (opt & 2) != 0;
    hc.encoding.renameCi = (opt & 1) != 0;
    try {
        mws::daemon::HarvestQueryHandler handler(hc);
        nLoaded++;
        answer(&handler, copy.get(), bodyLen, mws::xmlparser::QUERY_MWS,
               &nAnswered);
    } catch (const std::exception&) {
    }
    if (opt & 4) {
        mws::daemon::SchemaQueryHandler handler(hc.encoding);
        answer(&handler, copy.get(), bodyLen, mws::xmlparser::QUERY_SCHEMA,
               &nSchema);
    }
    if ((opt & 0x30) == 0x30) {
        mws::index::IndexConfiguration ic;
        ic.harvester = hc;
        ic.dataPath = dir + "/index";
        removeTree(ic.dataPath);
        try {
            if (mws::index::createCompressedIndex(ic) == 0) {
                nSaved++;
                mws::daemon::IndexQueryHandler::Config qc;
                qc.encoding = hc.encoding;
                qc.useExperimentalQueryEngine = (opt & 64) != 0;
                mws::daemon::IndexQueryHandler handler(ic.dataPath, qc);
                answer(&handler, copy.get(), bodyLen,
                       mws::xmlparser::QUERY_MWS, &nServed);
            }
        } catch (const std::exception&) {
        }
        removeTree(ic.dataPath);
    }
    return 0;
}
