/* Preloaded into a tool: plans what becomes of its reads of one file.
   RFILE: the file; RCHUNK: largest number of bytes a read gives (0: any); RAT: offset at which reads begin to fail
   (negative: never); RERR: errno of the failure; RTIMES: how many reads fail before reading works again (0: all).
   With RLOG, the number of reads and of failures is written there at exit. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <unistd.h>

static ssize_t (*real)(int, void *, size_t);
static char const * file;
static long chunk, at, err, times, reads, fails, pos;

static void report(void)
{
    char const * p = getenv("RLOG");
    char b[64];
    int fd = p ? open(p, O_WRONLY | O_CREAT | O_TRUNC, 0666) : -1;
    if (fd >= 0) {
        int n = snprintf(b, sizeof b, "%ld %ld\n", reads, fails);
        if (write(fd, b, n) < 0) {
        }
        close(fd);
    }
}

static long num(char const * s)
{
    s = getenv(s);
    return s ? atol(s) : 0;
}

ssize_t read(int fd, void * p, size_t n)
{
    char link[32], name[4096];
    ssize_t l;
    if (!real) {
        real = (ssize_t (*)(int, void *, size_t))dlsym(RTLD_NEXT, "read");
        file = getenv("RFILE");
        chunk = num("RCHUNK"); at = num("RAT"); err = num("RERR"); times = num("RTIMES");
    }
    if (!file) {
        return real(fd, p, n);
    }
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    l = readlink(link, name, sizeof name - 1);
    if (l < 0 || (size_t)l != strlen(file) || memcmp(name, file, l)) {
        return real(fd, p, n);
    }
    ++reads;
    if (at >= 0 && pos >= at && (!times || fails < times)) {
        ++fails;
        report();
        errno = err;
        return -1;
    }
    report();
    if (chunk && n > (size_t)chunk) {
        n = chunk;
    }
    if (at >= 0 && pos < at && pos + (long)n > at) {
        n = at - pos;
    }
    l = real(fd, p, n);
    if (l > 0) {
        pos += l;
    }
    return l;
}
