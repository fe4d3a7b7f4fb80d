/* read() for the replays: a file whose path ends in .eio-N can be read up to byte N, and then fails. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

ssize_t read(int fd, void *buf, size_t n)
{
    static ssize_t (*real)(int, void *, size_t);
    char link[64], path[4096], *p;
    ssize_t len;
    if (!real) real = (ssize_t (*)(int, void *, size_t)) dlsym(RTLD_NEXT, "read");
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    len = readlink(link, path, sizeof path - 1);
    if (len > 0) {
        path[len] = 0;
        p = strrchr(path, '.');
        if (p && !strncmp(p, ".eio-", 5)) {
            off_t limit = atol(p + 5), at = lseek(fd, 0, SEEK_CUR);
            if (at >= limit) { errno = EIO; return -1; }
            if (n > (size_t) (limit - at)) n = limit - at;
        }
    }
    return real(fd, buf, n);
}
