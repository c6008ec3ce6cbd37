/* Preloaded into gkc: schedules a test wants, and nothing else.
   GKSHIM_SLOT=1       gettimeofday stands at usec 0 and usleep returns at once (no waiting for an output slot)
   GKSHIM_ALARM_MS=n   a nonzero alarm() fires after n milliseconds
   GKSHIM_CLOCK=p      clock() runs at p percent of its speed (0: it stands), from an offset of GKSHIM_CLOCK0 */
#define _GNU_SOURCE
#include <stdlib.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static long num(const char *n) { char *v = getenv(n); return v ? atol(v) : 0; }

int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = num("GKSHIM_SLOT") ? 0 : ts.tv_nsec / 1000;
  return 0;
}

int usleep(useconds_t u) {
  struct timespec ts = {u / 1000000, (u % 1000000) * 1000L};
  if (num("GKSHIM_SLOT")) return 0;
  return nanosleep(&ts, NULL);
}

unsigned alarm(unsigned s) {
  struct itimerval v = {{0, 0}, {0, 0}}, o;
  long ms = num("GKSHIM_ALARM_MS");
  if (s && ms) { v.it_value.tv_sec = ms / 1000; v.it_value.tv_usec = (ms % 1000) * 1000; }
  else v.it_value.tv_sec = s;
  setitimer(ITIMER_REAL, &v, &o);
  return o.it_value.tv_sec + (o.it_value.tv_usec ? 1 : 0);
}

clock_t clock(void) {
  struct timespec ts;
  double t;
  char *p = getenv("GKSHIM_CLOCK");
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
  t = ts.tv_sec * 1e6 + ts.tv_nsec / 1e3;
  return (clock_t)(p ? num("GKSHIM_CLOCK0") + t * atol(p) / 100.0 : t);
}
