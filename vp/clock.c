/* LD_PRELOAD shim: the harness owns the real-time clock.  Everything but CLOCK_REALTIME passes through. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stddef.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
static int vp_on;
static long long vp_ns;
void vp_clock_set(long long ns) { vp_ns = ns; vp_on = 1; }
void vp_clock_off(void) { vp_on = 0; }
static long long fl(long long a, long long b) { long long q = a / b; return (a % b < 0) ? q - 1 : q; }
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (vp_on && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
    ts->tv_sec = fl(vp_ns, 1000000000LL); ts->tv_nsec = vp_ns - ts->tv_sec * 1000000000LL; return 0;
  }
  return syscall(SYS_clock_gettime, id, ts);
}
time_t time(time_t *t) {
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec;
}
int gettimeofday(struct timeval *tv, void *tz) {
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; } return 0;
}
