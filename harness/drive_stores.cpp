// Drives the stores and the term dictionary: one request per line, one answer
// line each; arguments in hex ("-" = empty).
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>

#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "common/types/Parcelable.hpp"
#include "mws/dbc/DbQueryManager.hpp"
#include "mws/dbc/LevCrawlDb.hpp"
#include "mws/dbc/LevFormulaDb.hpp"
#include "mws/dbc/MemCrawlDb.hpp"
#include "mws/dbc/MemFormulaDb.hpp"
#include "mws/index/MeaningDictionary.hpp"

using namespace mws::dbc;
using mws::index::MeaningDictionary;
using mws::types::FormulaPath;
using std::string;
using std::unique_ptr;
using std::vector;

static string hex(const string& s) {
    static const char d[] = "0123456789abcdef";
    string r;
    r.reserve(2 * s.size());
    for (unsigned char c : s) {
        r += d[c >> 4];
        r += d[c & 15];
    }
    return r.empty() ? "-" : r;
}

static int nib(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }

static string unhex(const string& s) {
    if (s == "-") return "";
    string r;
    for (size_t i = 0; i + 1 < s.size(); i += 2)
        r += (char)(nib(s[i]) * 16 + nib(s[i + 1]));
    return r;
}

static uint32_t num(const string& s) { return strtoul(s.c_str(), 0, 10); }

static unique_ptr<MemCrawlDb> memC;
static unique_ptr<MemFormulaDb> memF;
static unique_ptr<LevCrawlDb> levC;
static unique_ptr<LevFormulaDb> levF;
static unique_ptr<MeaningDictionary> dict;
static string dir;

static void closeDbs() {
    levC.reset();
    levF.reset();
}

static void openDbs(bool create, bool force) {
    levC.reset(new LevCrawlDb());
    levF.reset(new LevFormulaDb());
    if (create) {
        levC->create_new((dir + "/c").c_str(), force);
        levF->create_new((dir + "/f").c_str(), force);
    } else {
        levC->open((dir + "/c").c_str());
        levF->open((dir + "/f").c_str());
    }
}

template <class F>
static string guarded(F f) {
    try {
        return f();
    } catch (const std::exception& e) {
        return "error";
    }
}

static string query(FormulaDb* db, CrawlDb* cdb, const vector<string>& a,
                    bool manager) {
    std::ostringstream o;
    uint32_t n = 0, failAt = num(a[3]);
    int r;
    if (manager) {
        DbQueryManager m(cdb, db);
        r = m.query(num(a[0]), num(a[1]), num(a[2]),
                    [&](const FormulaPath& p, const CrawlData& d) {
                        o << " " << hex(d) << ":" << hex(p.xmlId) << ":"
                          << hex(p.xpath);
                        return ++n == failAt ? -1 : 0;
                    });
    } else {
        r = db->queryFormula(num(a[0]), num(a[1]), num(a[2]),
                             [&](const CrawlId& c, const FormulaPath& p) {
                                 o << " " << c << ":" << hex(p.xmlId) << ":"
                                   << hex(p.xpath);
                                 return ++n == failAt ? -1 : 0;
                             });
    }
    return std::to_string(r) + o.str();
}

static string parcel(const vector<string>& a) {
    // the strings, single and as formula paths, there and back
    using namespace common::types;
    ParcelAllocator alloc;
    vector<FormulaPath> paths;
    for (size_t i = 0; i < a.size(); i++) {
        alloc.reserve(a[i]);
        paths.push_back(FormulaPath(a[i], a[a.size() - 1 - i]));
        alloc.reserve(paths.back());
    }
    ParcelEncoder enc(alloc);
    for (size_t i = 0; i < a.size(); i++) {
        enc.encode(a[i]);
        enc.encode(paths[i]);
    }
    vector<char> copy(enc.getData(), enc.getData() + enc.getSize());
    ParcelDecoder dec(copy.data(), copy.size());
    string r;
    for (size_t i = 0; i < a.size(); i++) {
        string s = "old";
        FormulaPath p("old", "old");
        dec.decode(&s);
        dec.decode(&p);
        r += " " + hex(s) + " " + hex(p.xmlId) + " " + hex(p.xpath);
    }
    return r;
}

static string run(const string& cmd, const vector<string>& a) {
    if (cmd == "new") {
        closeDbs();
        dir = a[0];
        memC.reset(new MemCrawlDb());
        memF.reset(new MemFormulaDb());
        openDbs(true, a[1] == "1");
        return "ok";
    }
    if (cmd == "reopen") {
        closeDbs();
        openDbs(false, false);
        return "ok";
    }
    if (cmd == "again") {
        // creating over existing databases must fail and leave them alone
        closeDbs();
        LevCrawlDb c;
        LevFormulaDb f;
        string r = guarded([&]() {
            c.create_new((dir + "/c").c_str(), false);
            return string("created");
        });
        r += " " + guarded([&]() {
            f.create_new((dir + "/f").c_str(), false);
            return string("created");
        });
        return r;
    }
    if (cmd == "missing") {
        LevCrawlDb c;
        LevFormulaDb f;
        return guarded([&]() {
                   c.open((dir + "/nc").c_str());
                   return string("opened");
               }) +
               " " + guarded([&]() {
                   f.open((dir + "/nf").c_str());
                   return string("opened");
               });
    }
    if (cmd == "put")
        return std::to_string(memC->putData(a[0])) + " " +
               std::to_string(levC->putData(a[0]));
    if (cmd == "get") {
        return guarded([&]() { return hex(memC->getData(num(a[0]))); }) + " " +
               guarded([&]() { return hex(levC->getData(num(a[1]))); });
    }
    if (cmd == "ins") {
        return std::to_string(memF->insertFormula(
                   num(a[0]), num(a[1]), FormulaPath(a[3], a[4]))) +
               " " + std::to_string(levF->insertFormula(
                         num(a[0]), num(a[2]), FormulaPath(a[3], a[4])));
    }
    if (cmd == "qmem") return query(memF.get(), memC.get(), a, false);
    if (cmd == "qlev") return query(levF.get(), levC.get(), a, false);
    if (cmd == "mmem") return query(memF.get(), memC.get(), a, true);
    if (cmd == "mlev") return query(levF.get(), levC.get(), a, true);
    if (cmd == "mnone") return query(levF.get(), nullptr, a, true);
    if (cmd == "parcel") return parcel(a);
    if (cmd == "dnew") {
        dict.reset(new MeaningDictionary());
        return "ok";
    }
    if (cmd == "dput") return std::to_string(dict->put(a[0]));
    if (cmd == "dget") {
        auto id = dict->get(a[0]);
        return id == MeaningDictionary::KEY_NOT_FOUND + 0
                   ? string("none")
                   : std::to_string(id);
    }
    if (cmd == "drev") {
        auto t = dict->getReverseLookupTable();
        string r;
        for (const string& x : a) {
            r += guarded([&]() { return hex(t.get(num(x))); }) + " ";
        }
        return r;
    }
    if (cmd == "dsave") {
        std::filebuf fb;
        std::ostream os(&fb);
        if (!fb.open(a[0].c_str(), std::ios::out)) return "cannot open";
        int r = dict->save(os);
        return std::to_string(r) + (fb.close() ? "" : " unclosed");
    }
    if (cmd == "dload") {
        return guarded([&]() {
            unique_ptr<MeaningDictionary> d(new MeaningDictionary(a[0]));
            dict.swap(d);
            return string("ok");
        });
    }
    return "?";
}

int main() {
    string line;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line);
        string cmd, w, r;
        is >> cmd;
        vector<string> a;
        while (is >> w) a.push_back(unhex(w));
        r = guarded([&]() { return run(cmd, a); });
        printf("\n@ %s\n", r.c_str());
        fflush(stdout);
    }
    closeDbs();
    return 0;
}
