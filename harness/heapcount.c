/* LD_PRELOAD: counts live heap blocks and bytes into the file $HEAPCOUNT
 * (two 64-bit counters, plus the number of allocations made). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <stdatomic.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

static _Atomic long local[3];
static _Atomic long *cnt = local;

__attribute__((constructor)) static void init(void) {
    const char *f = getenv("HEAPCOUNT");
    if (!f) return;
    int fd = open(f, O_RDWR | O_CREAT | O_CLOEXEC, 0666);
    if (fd < 0) return;
    if (ftruncate(fd, 4096) == 0) {
        void *p = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p != MAP_FAILED) {
            _Atomic long *c = p;
            for (int i = 0; i < 3; i++) c[i] = local[i];
            cnt = c;
        }
    }
    close(fd);
}

static void *in(void *p) {
    if (p) {
        cnt[0]++;
        cnt[1] += (long)malloc_usable_size(p);
        cnt[2]++;
    }
    return p;
}
static void out(void *p) {
    if (p) {
        cnt[0]--;
        cnt[1] -= (long)malloc_usable_size(p);
    }
}
void *malloc(size_t n) { return in(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { return in(__libc_calloc(a, b)); }
void free(void *p) {
    int e = errno;
    out(p);
    __libc_free(p);
    errno = e;
}
void *realloc(void *p, size_t n) {
    size_t old = p ? malloc_usable_size(p) : 0;
    void *q = __libc_realloc(p, n);
    if (q || n == 0) {
        if (p) {
            cnt[0]--;
            cnt[1] -= (long)old;
        }
        in(q);
    }
    return q;
}
void *memalign(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
int posix_memalign(void **p, size_t a, size_t n) {
    void *q = __libc_memalign(a, n);
    if (!q) return ENOMEM;
    *p = in(q);
    return 0;
}
