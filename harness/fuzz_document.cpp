// libFuzzer driver: one input = options byte, optional xpath line, document
// bytes. The document is converted as docs2harvest does, and what comes out
// must be well-formed XML.
#include <libxml/parser.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include <exception>
#include <string>

#include "crawler/parser/MathParser.hpp"

using crawler::parser::Harvest;
using crawler::parser::HarvesterConfiguration;
using std::string;

static string dir;
static unsigned long nConverted, nRefused, nMath, nBytes;

static void report() {
    const char* path = getenv("FUZZ_STATS");
    FILE* f = path ? fopen(path, "w") : nullptr;
    if (f == nullptr) return;
    fprintf(f,
            "{\"documents converted\": %lu, \"documents refused\": %lu, "
            "\"formulas extracted\": %lu, \"output bytes\": %lu}\n",
            nConverted, nRefused, nMath, nBytes);
    fclose(f);
}

static void quiet(void*, const char*, ...) {}

extern "C" int LLVMFuzzerInitialize(int*, char***) {
    const char* d = getenv("FUZZ_DIR");
    dir = d ? d : "/tmp";
    FILE* null = fopen("/dev/null", "w");
    if (null != nullptr) dup2(fileno(null), 1);
    xmlSetGenericErrorFunc(nullptr, quiet);
    atexit(report);
    return 0;
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
    if (size == 0) return 0;
    uint8_t opt = data[0];
    const char* text = reinterpret_cast<const char*>(data) + 1;
    size_t len = size - 1;
    HarvesterConfiguration config;
    config.data_id = "7";
    config.shouldSaveData = (opt & 1) == 0;
    if (opt & 2) {  // the first line gives an xpath
        const void* nl = memchr(text, '\n', len);
        if (nl == nullptr) return 0;
        size_t n = static_cast<const char*>(nl) - text;
        string xpath(text, n);
        text += n + 1;
        len -= n + 1;
        if (xpath.find('\0') != string::npos) return 0;  // not an argument
        if (xpath.size() > 200) return 0;
        switch ((opt >> 2) & 3) {
        case 0: config.documentIdXpath = xpath; break;
        case 1: config.textWithMathXpath = xpath; break;
        default: {
            HarvesterConfiguration::MetadataItem item;
            item.name = (opt & 16) ? xpath : "title";
            item.xpath = xpath;
            config.metadataItems.push_back(item);
        }
        }
    }
    const string file = dir + "/doc.html";
    FILE* f = fopen(file.c_str(), "w");
    if (f == nullptr) abort();
    fwrite(text, 1, len, f);
    fclose(f);
    string out =
        "<?xml version=\"1.0\" ?>\n"
        "<mws:harvest xmlns:m=\"http://www.w3.org/1998/Math/MathML\"\n"
        "             xmlns:mws=\"http://search.mathweb.org/ns\">\n";
    try {
        const Harvest harvest =
            crawler::parser::createHarvestFromDocument(file, config);
        out += harvest.dataElement;
        for (const string& s : harvest.contentMathElements) {
            out += s;
            nMath++;
        }
        nConverted++;
    } catch (const std::exception&) {
        nRefused++;
        return 0;
    }
    out += "</mws:harvest>\n";
    nBytes += out.size();
    xmlDoc* doc = xmlReadMemory(
        out.data(), out.size(), "", nullptr,
        XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_HUGE);
    if (doc == nullptr) {
        fprintf(stderr, "VERIF: the harvest written is not well-formed:\n");
        fwrite(out.data(), 1, out.size() > 4000 ? 4000 : out.size(), stderr);
        abort();
    }
    xmlFreeDoc(doc);
    return 0;
}
