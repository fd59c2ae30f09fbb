/* Wall clock seam for whole processes: adds an offset to the system time.
   Elapsed time (CLOCK_MONOTONIC etc.) is left alone. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static long offset;

void sim_clock_offset(long seconds) { offset = seconds; }

int clock_gettime(clockid_t id, struct timespec *t)
{
    int r = syscall(SYS_clock_gettime, id, t);
    if (!r && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE))
        t->tv_sec += offset;
    return r;
}

int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
    struct timespec t;
    (void)tz;
    clock_gettime(CLOCK_REALTIME, &t);
    tv->tv_sec = t.tv_sec;
    tv->tv_usec = t.tv_nsec / 1000;
    return 0;
}

time_t time(time_t *out)
{
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (out)
        *out = t.tv_sec;
    return t.tv_sec;
}
