/* Preloaded: fresh memory holds the byte GKFILL (the first 256 kB of a block, and a bit of each later megabyte). */
#include <stdlib.h>
#include <string.h>
extern void *__libc_malloc(size_t);
void *malloc(size_t n) {
  static int f = -2;
  char *p = __libc_malloc(n);
  size_t i;
  if (f == -2) { char *v = getenv("GKFILL"); f = v ? atoi(v) : -1; }
  if (p && f >= 0) {
    memset(p, f, n < 262144 ? n : 262144);
    for (i = 262144; i + 64 < n; i += n > 100000000 ? 16777216 : 1048576) memset(p + i, f, 64);
  }
  return p;
}
