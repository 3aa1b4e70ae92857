/* LD_PRELOAD: a settable wall clock (monotonic clocks are untouched). */
#define _GNU_SOURCE
#include <time.h>
#include <sys/time.h>
#include <dlfcn.h>
static long long vt_now = 0; /* 0: real time */
void vt_set_time(long long t) { vt_now = t; }
static int (*real_cg)(clockid_t, struct timespec *);
static int rcg(clockid_t c, struct timespec *ts)
{
  if (!real_cg) real_cg = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
  return real_cg(c, ts);
}
time_t time(time_t *p)
{
  time_t t;
  if (vt_now) t = (time_t)vt_now;
  else { struct timespec ts; rcg(CLOCK_REALTIME, &ts); t = ts.tv_sec; }
  if (p) *p = t;
  return t;
}
int gettimeofday(struct timeval *tv, void *tz)
{
  struct timespec ts; rcg(CLOCK_REALTIME, &ts);
  tv->tv_sec = vt_now ? (time_t)vt_now : ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
int clock_gettime(clockid_t c, struct timespec *ts)
{
  int r = rcg(c, ts);
  if (vt_now && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) ts->tv_sec = (time_t)vt_now;
  return r;
}
