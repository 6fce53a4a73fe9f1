// Drives sockets, control sequences and the thread wrapper. One request per
// line, one answer line each; arguments in hex ("-" = empty).
#include <dirent.h>
#include <pthread.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include <atomic>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "common/socket/InSocket.hpp"
#include "common/socket/OutSocket.hpp"
#include "common/thread/ThreadWrapper.hpp"
#include "common/types/ControlSequence.hpp"
#include "common/types/DataFormat.hpp"

using std::string;
using std::unique_ptr;
using std::vector;

static string hex(const string& s) {
    static const char d[] = "0123456789abcdef";
    string r;
    for (unsigned char c : s) {
        r += d[c >> 4];
        r += d[c & 15];
    }
    return r.empty() ? "-" : r;
}

static int nib(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }

static string unhex(const string& s) {
    if (s == "-") return "";
    string r;
    for (size_t i = 0; i + 1 < s.size(); i += 2)
        r += (char)(nib(s[i]) * 16 + nib(s[i + 1]));
    return r;
}

static unsigned char byteAt(uint64_t seed, uint64_t i) {
    uint64_t x = (seed + 1) * 0x9E3779B97F4A7C15ull + i * 0xBF58476D1CE4E5B9ull;
    x ^= x >> 29;
    return (unsigned char)(x ^ (x >> 8));
}

static unique_ptr<InSocket> in;
static unique_ptr<OutSocket> out;

static int openFds() {
    int n = 0;
    DIR* d = opendir("/proc/self/fd");
    while (readdir(d)) n++;
    closedir(d);
    return n;
}

static string run(const string& cmd, const vector<string>& a) {
    auto num = [&](size_t i) { return strtoll(a[i].c_str(), 0, 10); };
    std::ostringstream o;
    if (cmd == "fds") {
        o << openFds();
    } else if (cmd == "listen") {
        in.reset(a.size() > 1 ? new InSocket(num(0), num(1))
                              : new InSocket(num(0)));
        o << in->enable();
    } else if (cmd == "relisten") {
        o << in->enable();
    } else if (cmd == "unlisten") {
        in.reset();
        o << 0;
    } else if (cmd == "early") {
        InSocket s(num(0));
        unique_ptr<OutSocket> c(s.accept());
        o << (c ? 1 : 0);
    } else if (cmd == "accept") {
        out.reset(in->accept());
        o << (out ? 1 : 0);
    } else if (cmd == "connect") {
        out.reset(a.size() > 1 ? new OutSocket(a[1], num(0))
                               : new OutSocket(num(0)));
        o << out->enable();
    } else if (cmd == "closed") {
        // everything on a socket that is not open
        OutSocket s("localhost", 1);
        char b[8];
        o << s.write("x", 1) << " " << s.read(b, 8) << " " << s.getFd() << " "
          << s.getInfo().hostname << " " << s.getInfo().service;
    } else if (cmd == "write") {
        size_t n = num(0);
        string s(n, 0);
        for (size_t i = 0; i < n; i++) s[i] = byteAt(num(1), num(2) + i);
        // exactly sized, so that the sanitizer sees reads beyond it
        unique_ptr<char[]> p(new char[n]);
        memcpy(p.get(), s.data(), n);
        o << out->write(p.get(), n);
    } else if (cmd == "read") {
        size_t n = num(0);
        unique_ptr<char[]> p(new char[n]);
        memset(p.get(), 0xEE, n);
        int r = out->read(p.get(), n);
        int ok = 1;
        for (int i = 0; i < r && i < (int)n; i++)
            if ((unsigned char)p[i] != byteAt(num(1), num(2) + i)) {
                ok = 0;
                break;
            }
        o << r << " " << ok;
    } else if (cmd == "info") {
        SocketInfo i = out->getInfo();
        o << hex(i.hostname) << " " << hex(i.service) << " "
          << (out->getFd() >= 0);
    } else if (cmd == "close") {
        out.reset();
        o << 0;
    } else if (cmd == "csize") {
        o << sizeof(ControlSequence);
    } else if (cmd == "csend") {
        ControlSequence c;
        if (num(0) >= 0) c.setFormat((DataFormat)num(0));
        o << c.send(out->getFd());
    } else if (cmd == "crecv") {
        unique_ptr<ControlSequence> c(new ControlSequence());
        if (num(0) >= 0) c->setFormat((DataFormat)num(0));
        ssize_t r = c->recv(out->getFd());
        o << r << " " << c->isParsed() << " " << (int)c->getFormat();
    } else if (cmd == "cfd") {
        // on a bad descriptor, and through a pipe
        int p[2];
        if (pipe(p)) abort();
        ControlSequence c, d;
        c.setFormat((DataFormat)num(0));
        o << c.send(-1) << " " << d.recv(-1) << " " << c.send(p[1]) << " "
          << d.recv(p[0]) << " " << d.isParsed() << " " << (int)d.getFormat();
        close(p[1]);
        ControlSequence e;
        o << " " << e.recv(p[0]) << " " << e.isParsed();
        close(p[0]);
    } else if (cmd == "mime") {
        o << (DataFormat)num(0);
    } else {
        o << "?";
    }
    return o.str();
}

// --- threads ---------------------------------------------------------------
static std::atomic<int> ran[100000];
static std::atomic<int> started[100000];
static std::atomic<int> next_(0);
static std::atomic<int> refused(0);
static int maxDelay, nest;

static void* routine(void* arg);

static int start() {
    int id = next_++;
    if (id >= 100000) abort();
    int r = ThreadWrapper::run(routine, (void*)(intptr_t)id);
    if (r == 0)
        started[id]++;
    else
        refused++;
    return r;
}

static unsigned rnd(unsigned* s) {
    *s = *s * 1103515245u + 12345u;
    return *s >> 8;
}

static void* routine(void* arg) {
    int id = (intptr_t)arg;
    unsigned s = id * 7919u + 17u;
    rnd(&s);
    if (maxDelay && rnd(&s) % 3) usleep(rnd(&s) % maxDelay);
    if (nest && rnd(&s) % 100 < (unsigned)nest) start();
    if (maxDelay && rnd(&s) % 5 == 0) usleep(rnd(&s) % maxDelay);
    ran[id]++;
    return (void*)(intptr_t)(id % 3);
}

struct Starter {
    int n, seed;
};

static void* starter(void* p) {
    Starter* s = (Starter*)p;
    unsigned r = s->seed;
    for (int i = 0; i < s->n; i++) {
        start();
        if (maxDelay && rnd(&r) % 8 == 0) usleep(rnd(&r) % maxDelay);
    }
    return nullptr;
}

// starters, threads each, delay, nesting percent, seed, overlap
static int threads(char** v) {
    int starters = atoi(v[0]), each = atoi(v[1]);
    maxDelay = atoi(v[2]);
    nest = atoi(v[3]);
    int seed = atoi(v[4]), overlap = atoi(v[5]);
    if (ThreadWrapper::init() != 0) return 3;
    vector<pthread_t> t(starters);
    vector<Starter> st(starters);
    for (int i = 0; i < starters; i++) {
        st[i] = {each, seed * 1000 + i};
        if (pthread_create(&t[i], nullptr, starter, &st[i]) != 0) {
            printf("@ none\n");
            fflush(stdout);
            _exit(0);
        }
    }
    if (!overlap)
        for (auto x : t) pthread_join(x, nullptr);
    else
        usleep(overlap);
    ThreadWrapper::clean();
    // every thread whose start succeeded so far is done
    int total = next_, good = 0, bad = 0, before = 0;
    if (!overlap) {
        for (int i = 0; i < total; i++) {
            if (started[i]) before++;
            if (ran[i] != started[i]) bad++;
        }
    } else {
        for (auto x : t) pthread_join(x, nullptr);
    }
    // no more starts
    int late = 0;
    for (int i = 0; i < 3; i++) late += start() != 0;
    usleep(1000);
    total = next_;
    for (int i = 0; i < total; i++) {
        if (ran[i] != started[i]) bad++;
        if (ran[i] == 1) good++;
    }
    printf("@ total %d good %d bad %d refused %d late %d\n", total, good, bad,
           (int)refused, late);
    fflush(stdout);
    return 0;
}

static void nothing(int) {}

int main(int argc, char** argv) {
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = nothing;  // interrupts calls
    sigaction(SIGUSR1, &sa, nullptr);
    if (argc == 8 && string(argv[1]) == "threads") return threads(argv + 2);
    // calls of the code under test are interrupted, the driver's are not
    sigset_t usr;
    sigemptyset(&usr);
    sigaddset(&usr, SIGUSR1);
    pthread_sigmask(SIG_BLOCK, &usr, nullptr);
    string line;
    std::ios::sync_with_stdio(true);
    while (std::getline(std::cin, line)) {
        std::istringstream is(line);
        string cmd, w;
        is >> cmd;
        vector<string> a;
        while (is >> w) a.push_back(unhex(w));
        pthread_sigmask(SIG_UNBLOCK, &usr, nullptr);
        string r = run(cmd, a);
        pthread_sigmask(SIG_BLOCK, &usr, nullptr);
        printf("\n@ %s\n", r.c_str());
        fflush(stdout);
    }
    out.reset();
    in.reset();
    return 0;
}
