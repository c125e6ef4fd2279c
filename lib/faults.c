/* Preloaded: write() to anything but the standard error has the faults that V_FAULT asks for.
   short:SEED   writes a part only, and is interrupted now and then
   fail:E:K     the first K bytes arrive, then every write fails with errno E
   Writes and faults are counted in the file V_LOG names. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
static unsigned long long state;
static long long bytes;
static unsigned rnd(void) {
    state = state * 6364136223846793005ULL + 1442695040888963407ULL;
    return state >> 33;
}
static void note(const char *what) {
    const char *p = getenv("V_LOG");
    int e = errno;
    int fd = p ? syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_CREAT | O_APPEND, 0600) : -1;
    if (fd >= 0) {
        syscall(SYS_write, fd, what, strlen(what));
        syscall(SYS_close, fd);
    }
    errno = e;
}
static ssize_t fault(int fd, const void *buf, size_t n) {
    const char *f = getenv("V_FAULT");
    if (fd == 2 || !f || n == 0) return syscall(SYS_write, fd, buf, n);
    int e;
    long long k;
    unsigned long long seed;
    if (sscanf(f, "short:%llu", &seed) == 1) {
        static int started;
        if (!started) started = 1, state = seed * 2654435761u + 1;
        if (rnd() % 4 == 0) {
            note("interrupted\n");
            errno = EINTR;
            return -1;
        }
        size_t m = 1 + rnd() % (rnd() % 3 ? 7 : 4096);
        if (m < n) note("short\n"); else note("whole\n");
        return syscall(SYS_write, fd, buf, m < n ? m : n);
    }
    if (sscanf(f, "fail:%d:%lld", &e, &k) == 2) {
        if (bytes >= k) {
            note("failed\n");
            errno = e;
            return -1;
        }
        size_t m = k - bytes < (long long)n ? (size_t)(k - bytes) : n;
        ssize_t r = syscall(SYS_write, fd, buf, m);
        if (r > 0) bytes += r;
        note(m < n ? "short\n" : "whole\n");
        return r;
    }
    return syscall(SYS_write, fd, buf, n);
}
ssize_t write(int fd, const void *buf, size_t n) { return fault(fd, buf, n); }
ssize_t writev(int fd, const struct iovec *v, int n) {
    for (int i = 0; i < n; i++)
        if (v[i].iov_len) return fault(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
