/* Preloaded into a tool: makes its memory allocations fail.
   AFAIL: number of the allocation that fails (from 1, 0: none); AMORE: how many fail from there on (0: all);
   ABIG: only requests of at least so many bytes count. The numbers of requests and of failures are kept in the
   file ALOG (two longs). */
#define _GNU_SOURCE
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>

void * __libc_malloc(size_t);
void * __libc_calloc(size_t, size_t);
void * __libc_realloc(void *, size_t);
void * __libc_memalign(size_t, size_t);

static long count, fails, at = -1, more, big, *shared;

static long num(char const * s)
{
    s = getenv(s);
    return s ? atol(s) : 0;
}

__attribute__((constructor)) static void init(void)
{
    char const * p = getenv("ALOG");
    int fd = p ? open(p, O_RDWR) : -1;
    if (fd >= 0) {
        shared = mmap(0, 2 * sizeof(long), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (shared == MAP_FAILED) {
            shared = 0;
        }
        close(fd);
    }
    more = num("AMORE"); big = num("ABIG");
    at = num("AFAIL");
}

static int fail(size_t n)
{
    if (at < 0 || (long)n < big) {
        return 0;
    }
    ++count;
    if (shared) {
        shared[0] = count;
    }
    if (at && count >= at && (!more || count < at + more)) {
        ++fails;
        if (shared) {
            shared[1] = fails;
        }
        errno = ENOMEM;
        return 1;
    }
    return 0;
}

void * malloc(size_t n) { return fail(n) ? 0 : __libc_malloc(n); }
void * calloc(size_t a, size_t b) { return fail(a * b) ? 0 : __libc_calloc(a, b); }
void * realloc(void * p, size_t n) { return fail(n) ? 0 : __libc_realloc(p, n); }
void * memalign(size_t a, size_t n) { return fail(n) ? 0 : __libc_memalign(a, n); }
void * aligned_alloc(size_t a, size_t n) { return fail(n) ? 0 : __libc_memalign(a, n); }
int posix_memalign(void ** p, size_t a, size_t n)
{
    if (fail(n)) {
        return ENOMEM;
    }
    *p = __libc_memalign(a, n);
    return *p ? 0 : ENOMEM;
}
