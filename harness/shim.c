#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <sys/time.h>
#include <time.h>
static long shift(void) {
    const char *s = getenv("SHIM_SECONDS");
    return s ? atol(s) : 0;
}
int clock_gettime(clockid_t c, struct timespec *t) {
    static int (*real)(clockid_t, struct timespec *);
    if (!real) real = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
    int r = real(c, t);
    if (r == 0) t->tv_sec += shift();
    return r;
}
int gettimeofday(struct timeval *t, void *z) {
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (t) { t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; }
    (void)z;
    return 0;
}
time_t time(time_t *o) {
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (o) *o = s.tv_sec;
    return s.tv_sec;
}
