/* LD_PRELOAD shim: the wall clock of the process is a variable the simulator sets. */
#define _GNU_SOURCE
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
static volatile int on = 0;
static volatile long long now_ns = 0;
static volatile long long reads = 0;
static volatile long long step_ns = 0;
void sim_clock_set(int enabled, long long ns) { on = enabled; now_ns = ns; step_ns = 0; }
void sim_clock_step(long long ns) { step_ns = ns; }
long long sim_clock_reads(void) { return reads; }
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (on && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) && ts) {
    reads++;
    ts->tv_sec = now_ns / 1000000000LL;
    ts->tv_nsec = now_ns % 1000000000LL;
    now_ns += step_ns;
    return 0;
  }
  return (int)syscall(SYS_clock_gettime, id, ts);
}
int gettimeofday(struct timeval *tv, void *tz) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
  return 0;
}
time_t time(time_t *t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
