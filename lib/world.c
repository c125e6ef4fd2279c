/* Preloaded: every environment variable that is not set has the value of V_WORLD, and the clock is years ahead. */
#define _GNU_SOURCE
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <sys/time.h>
#include <unistd.h>
extern char **environ;
static char *look(const char *name) {
    size_t n = strlen(name);
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
    return 0;
}
char *getenv(const char *name) {
    char *v = look(name);
    if (v || !strncmp(name, "RUST_", 5) || !strncmp(name, "VH_", 3)) return v;
    return look("V_WORLD");
}
int clock_gettime(clockid_t id, struct timespec *t) {
    int r = syscall(SYS_clock_gettime, id, t);
    if (id == CLOCK_REALTIME) t->tv_sec += 123456789;
    return r;
}
time_t time(time_t *p) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (p) *p = t.tv_sec;
    return t.tv_sec;
}
int gettimeofday(struct timeval *v, void *z) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    v->tv_sec = t.tv_sec;
    v->tv_usec = t.tv_nsec / 1000;
    return 0;
}
