/* Linked into gkc with -Wl,--wrap=...: the allocation functions of the database and of the C library, as called
   from gkc's own code, fail where a test says so.
   GKV_FAIL=kind:from:count:min   kind d (database), m (malloc family) or r (realloc); calls number from .. from+count-1 of the
                                  kind with a size of at least min fail (count 0: all from there on)
   GKV_COUNT=file                 the numbers of calls are written there at exit, by each process its own line */
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>

typedef ptrdiff_t gint;
gint __real_wg_alloc_gints(void *db, void *ah, gint nr);
gint __real_wg_alloc_fixlen_object(void *db, void *ah);
gint __real_wg_alloc_db_segmentchunk(void *db, gint size);
void *__real_malloc(size_t n);
void *__real_calloc(size_t n, size_t m);
void *__real_realloc(void *p, size_t n);

static long nd, nm, nr, failed, from, count, min;
static char kind;
static int inited;

static void report(void) {
  char *f = getenv("GKV_COUNT"), buf[200];
  if (!f) return;
  int fd = open(f, O_WRONLY | O_CREAT | O_APPEND, 0600);
  int n = snprintf(buf, 200, "%ld %ld %ld %ld\n", nd, nm, nr, failed);
  if (fd >= 0) { if (write(fd, buf, n) < 0) {} close(fd); }
}

static void init(void) {
  char *e = getenv("GKV_FAIL");
  inited = 1;
  if (e) { kind = e[0]; sscanf(e + 1, ":%ld:%ld:%ld", &from, &count, &min); }
  atexit(report);
}

static int fails(char k, long *c, size_t size) {
  if (!inited) init();
  ++*c;
  if (k != kind || *c < from || (count && *c >= from + count) || (long)size < min) return 0;
  failed++;
  return 1;
}

gint __wrap_wg_alloc_gints(void *db, void *ah, gint nr) { return fails('d', &nd, nr * 8) ? 0 : __real_wg_alloc_gints(db, ah, nr); }
gint __wrap_wg_alloc_fixlen_object(void *db, void *ah) { return fails('d', &nd, 32) ? 0 : __real_wg_alloc_fixlen_object(db, ah); }
void *__wrap_malloc(size_t n) { return fails('m', &nm, n) ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { return fails('m', &nm, n * m) ? NULL : __real_calloc(n, m); }
void *__wrap_realloc(void *p, size_t n) { return fails('m', &nm, n) | fails('r', &nr, n) ? NULL : __real_realloc(p, n); }
