/* Preloaded into a tool: notes the name of every environment variable it asks for in the file WATCH. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <string.h>
#include <unistd.h>

extern char ** environ;

static char * value(char const * name)
{
    size_t n = strlen(name);
    for (char ** e = environ; e && *e; ++e) {
        if (!strncmp(*e, name, n) && (*e)[n] == '=') {
            return *e + n + 1;
        }
    }
    return 0;
}

static char * note(char const * name)
{
    char * path = value("WATCH");
    int fd = path ? open(path, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0666) : -1;
    if (fd >= 0) {
        char line[512];
        size_t n = strlen(name);
        if (n < sizeof(line)) {
            memcpy(line, name, n);
            line[n] = '\n';
            if (write(fd, line, n + 1)) {}
        }
        close(fd);
    }
    return value(name);
}

char * getenv(char const * name) { return note(name); }
char * secure_getenv(char const * name) { return note(name); }
char * __secure_getenv(char const * name) { return note(name); }
