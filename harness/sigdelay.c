/* LD_PRELOAD: stretches the moments around waiting for a signal. When a
 * program is about to suspend (or changes its signal mask), the file
 * $SIGDELAY_MARK is created and the call is held back for $SIGDELAY_MS. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

static void hold(const char *which) {
    const char *m = getenv("SIGDELAY_MARK"), *w = getenv("SIGDELAY_AT");
    const char *t = getenv("SIGDELAY_MS");
    if (!m || !w || !t || w[0] != which[0]) return;
    if (syscall(SYS_gettid) != getpid()) return;
    int fd = open(m, O_CREAT | O_WRONLY, 0666);
    if (fd >= 0) close(fd);
    long ms = atol(t);
    struct timespec end, now;
    clock_gettime(CLOCK_MONOTONIC, &end);
    for (;;) {
        struct timespec d = {0, 5000000};
        nanosleep(&d, NULL);
        clock_gettime(CLOCK_MONOTONIC, &now);
        if ((now.tv_sec - end.tv_sec) * 1000 +
            (now.tv_nsec - end.tv_nsec) / 1000000 >= ms) break;
    }
}

int sigsuspend(const sigset_t *s) {
    static int (*real)(const sigset_t *);
    if (!real) real = dlsym(RTLD_NEXT, "sigsuspend");
    hold("suspend");
    return real(s);
}

int sigprocmask(int how, const sigset_t *s, sigset_t *o) {
    static int (*real)(int, const sigset_t *, sigset_t *);
    if (!real) real = dlsym(RTLD_NEXT, "sigprocmask");
    hold("mask");
    int r = real(how, s, o);
    hold("after");
    return r;
}

int sigaction(int n, const struct sigaction *a, struct sigaction *o) {
    static int (*real)(int, const struct sigaction *, struct sigaction *);
    if (!real) real = dlsym(RTLD_NEXT, "sigaction");
    int r = real(n, a, o);
    if (n == SIGTERM && a) hold("handler");
    return r;
}

int sigwait(const sigset_t *s, int *sig) {
    static int (*real)(const sigset_t *, int *);
    if (!real) real = dlsym(RTLD_NEXT, "sigwait");
    hold("suspend");
    return real(s, sig);
}

int pause(void) {
    static int (*real)(void);
    if (!real) real = dlsym(RTLD_NEXT, "pause");
    hold("suspend");
    return real();
}
