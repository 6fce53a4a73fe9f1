// Calls the shared helpers: one request per input line, one answer line each.
// request: name and arguments in hex ("-" = empty)
#include <errno.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <iostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include "common/utils/FlagParser.hpp"
#include "common/utils/Path.hpp"
#include "common/utils/getBoolType.hpp"
#include "common/utils/util.hpp"
extern "C" {
#include "common/utils/mmap.h"
}

using namespace common::utils;
using std::string;
using std::vector;

static string hex(const string& s) {
    static const char d[] = "0123456789abcdef";
    string r;
    for (unsigned char c : s) {
        r += d[c >> 4];
        r += d[c & 15];
    }
    return r.empty() ? "-" : r;
}

static string unhex(const string& s) {
    if (s == "-") return "";
    string r;
    for (size_t i = 0; i + 1 < s.size(); i += 2)
        r += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16);
    return r;
}

static string flags(const vector<string>& a) {
    // a: min params, number of flags, then "c:long:opt:arg" each, letters to
    // query, then argv
    int out[2];
    if (pipe(out)) abort();
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        close(out[0]);
        dup2(out[1], 1);
        int nfd = dup(out[1]);
        FILE* o = fdopen(nfd, "w");
        FlagParser::setMinNumParams(atoi(a[0].c_str()));
        int n = atoi(a[1].c_str());
        for (int i = 0; i < n; i++) {
            const string& f = a[2 + i];
            size_t p = f.rfind(':'), q = f.rfind(':', p - 1);
            FlagParser::addFlag(f[0], f.substr(2, q - 2),
                                f[q + 1] == 'R' ? FLAG_REQ : FLAG_OPT,
                                f[p + 1] == 'N' ? ARG_NONE
                                                : f[p + 1] == 'R' ? ARG_REQ
                                                                  : ARG_OPT);
        }
        string ask = a[2 + n];
        vector<char*> argv;
        for (size_t i = 3 + n; i < a.size(); i++)
            argv.push_back(strdup(a[i].c_str()));
        int argc = argv.size();
        argv.push_back(nullptr);
        int r = FlagParser::parse(argc, argv.data());
        fprintf(o, "parsed %d\n", r == 0);
        if (r == 0) {
            for (int round = 0; round < 2; round++) {
                for (char c : ask) {
                    fprintf(o, "flag %c %d %s", c, FlagParser::hasArg(c),
                            hex(FlagParser::getArg(c)).c_str());
                    for (const string& v : FlagParser::getArgs(c))
                        fprintf(o, " %s", hex(v).c_str());
                    fprintf(o, "\n");
                }
            }
            for (const string& v : FlagParser::getParams())
                fprintf(o, "param %s\n", hex(v).c_str());
        }
        fprintf(o, "usage %s\n", hex(FlagParser::getUsage()).c_str());
        fclose(o);
        fflush(stdout);
        _exit(0);
    }
    close(out[1]);
    string r;
    char b[4096];
    ssize_t k;
    while ((k = read(out[0], b, sizeof b)) > 0) r.append(b, k);
    close(out[0]);
    int st;
    waitpid(pid, &st, 0);
    std::ostringstream o;
    o << st << " " << hex(r);
    return o.str();
}

static string walk(const vector<string>& a) {
    // directory, letters of the directories not to enter, call to fail at
    std::ostringstream o;
    int n = 0, failAt = atoi(a[2].c_str());
    int r = foreachEntryInDirectory(
        a[0],
        [&](const string& full, const string& part) {
            o << " f:" << hex(full) << ":" << hex(part);
            return ++n == failAt ? -1 : 0;
        },
        [&](const string& part) {
            o << " d:" << hex(part);
            return part.find(a[1].empty() ? "\1" : a[1]) == string::npos;
        });
    return (r == 0 ? "0" : "1") + o.str();
}

static string map_(const vector<string>& a) {
    std::ostringstream o;
    mmap_handle_t h;
    if (a[0] == "create") {
        int r = mmap_create(a[1].c_str(), atoll(a[2].c_str()), MAP_SHARED, &h);
        if (r != 0) return "fail";
        o << h.size << " ";
        char* p = (char*)h.start_addr;
        for (size_t i = 0; i < a[3].size() && i < (size_t)h.size; i++)
            p[h.size - 1 - i] = a[3][i];
        o << mmap_unload(&h);
        return o.str();
    }
    if (mmap_load(a[1].c_str(), MAP_SHARED, &h) != 0) return "fail";
    o << hex(string((char*)h.start_addr, h.size)) << " ";
    h.path = a[1].c_str();
    if (a[0] == "remove") o << mmap_remove(&h) << " ";
    o << mmap_unload(&h);
    return o.str();
}

template <class P>
static string path(const vector<string>& a) {
    // "s" sets, "a" appends
    P* p = new P();  // on the heap, where the sanitizer guards its ends
    for (size_t i = 1; i + 1 < a.size(); i += 2) {
        if (a[i] == "s")
            p->set(a[i + 1]);
        else
            p->append(mws::RelPath(a[i + 1]));
    }
    string r = p->get();
    delete p;
    return hex(r);
}

int main() {
    string line;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line);
        string cmd, w, r;
        is >> cmd;
        vector<string> a;
        while (is >> w) a.push_back(unhex(w));
        try {
            if (cmd == "json") {
                r = hex(escapeJsonString(a[0]));
            } else if (cmd == "suffix") {
                r = hasSuffix(a[0], a[1]) ? "1" : "0";
            } else if (cmd == "spaces") {
                string s = a[0];
                removeDuplicateSpaces(&s);
                r = hex(s);
            } else if (cmd == "file") {
                r = hex(getFileContents(a[0]));
            } else if (cmd == "filesum") {
                string s = getFileContents(a[0]);
                uint64_t h = 1469598103934665603ull;
                for (size_t i = 0; i < s.size(); i += 4099)
                    h = (h ^ (unsigned char)s[i]) * 1099511628211ull;
                r = std::to_string(s.size()) + ":" + std::to_string(h);
            } else if (cmd == "bytes") {
                r = hex(humanReadableByteCount(strtoull(a[0].c_str(), 0, 10),
                                               a[1] == "si"));
            } else if (cmd == "bool") {
                switch (getBoolType(a[0])) {
                case BOOL_YES: r = "yes"; break;
                case BOOL_NO: r = "no"; break;
                default: r = "default";
                }
            } else if (cmd == "format") {
                r = hex(formattedString("%s|%d|%.3f|%s", a[0].c_str(),
                                        atoi(a[1].c_str()),
                                        atof(a[1].c_str()), a[2].c_str()));
            } else if (cmd == "mkdir") {
                create_directory(a[0], a[1] == "1");
                r = "ok";
            } else if (cmd == "flags") {
                r = flags(a);
            } else if (cmd == "walk") {
                r = walk(a);
            } else if (cmd == "mmap") {
                r = map_(a);
            } else if (cmd == "path") {
                r = a[0] == "rel" ? path<mws::RelPath>(a)
                                  : path<mws::AbsPath>(a);
            } else {
                r = "?";
            }
        } catch (const std::runtime_error& e) {
            r = "error " + hex(e.what());
        }
        // the answer is the last line after anything the helpers print
        printf("\n@ %s\n", r.c_str());
        fflush(stdout);
    }
    return 0;
}
