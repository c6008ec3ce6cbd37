/* Writes databases of random content to files and reads them back, whole, damaged and cut short.
   usage: dumph SEED CASES DIR; prints events and VIOLATION lines. */
#include "Db/dballoc.h"
#include "Db/dbmem.h"
#include "Db/dbdata.h"
#include "Db/dbdump.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>

static unsigned long long s;
static unsigned long rnd(unsigned long n) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (s >> 11) % n; }
static long nchecked, nrefused, nsame, nrec, nvio, nround, nforged;
static char good[4096];
static int casenr;

static void vio(const char *key, const char *fmt, long a, long b) {
  nvio++;
  printf("VIO %s case %d: ", key, casenr); printf(fmt, a, b); printf("\n"); fflush(stdout);
}

static void fill(void *db, gint size) {
  int n = rnd(1200), i, j, len;
  char buf[300];
  for (i = 0; i < n; i++) {
    if (dbmemsegh(db)->size - dbmemsegh(db)->free < 20000 && i > 50) break;
    len = 1 + rnd(12);
    gint *rec = wg_create_raw_record(db, len);
    if (!rec) break;
    nrec++;
    for (j = 0; j < len; j++) {
      gint v;
      int k = rnd(5), m = rnd(200);
      if (k == 0) v = wg_encode_int(db, (gint)rnd(1ul << 40) - (1l << 39));
      else if (k == 1) v = wg_encode_double(db, (double)rnd(1000000) / 7.0);
      else if (k == 2) { snprintf(buf, 300, "str%lu", rnd(500)); v = wg_encode_str(db, buf, NULL); }
      else if (k == 3) { memset(buf, 'a' + rnd(26), m); buf[m] = 0; v = wg_encode_uri(db, buf, rnd(2) ? "pre:" : NULL); }
      else v = wg_encode_var(db, rnd(100));
      if (v != WG_ILLEGAL) wg_set_new_field(db, rec, j, v);
    }
  }
}

static char *slurp(const char *p, long *n) {
  FILE *f = fopen(p, "rb");
  if (!f) return NULL;
  fseek(f, 0, SEEK_END); *n = ftell(f); rewind(f);
  char *b = malloc(*n + 1);
  if (fread(b, 1, *n, f) != (size_t)*n) { free(b); fclose(f); return NULL; }
  fclose(f);
  return b;
}

static void spit(const char *p, const char *b, long n) {
  FILE *f = fopen(p, "wb");
  if (!f || (n && fwrite(b, 1, n, f) != (size_t)n) || fclose(f)) { printf("HARNESS cannot write\n"); exit(2); }
}

int main(int argc, char **argv) {
  unsigned long long seed = strtoull(argv[1], 0, 10);
  int cases = atoi(argv[2]), from = argc > 4 ? atoi(argv[4]) : 0, m;
  char f1[600], f2[600];
  snprintf(f1, 600, "%s/a.dmp", argv[3]); snprintf(f2, 600, "%s/b.dmp", argv[3]);
  for (casenr = from; casenr < from + cases; casenr++) {
    s = seed * 7919 + casenr * 104729 + 88172645463325252ull;
    for (m = 0; m < 20; m++) rnd(2);
    gint size = 250000 + rnd(rnd(6) ? 600000 : 6000000), mn = 0, mx = 0;
    void *db = wg_attach_local_database(size), *db2;
    if (!db) { vio("no-database", "no database of %ld bytes", size, 0); continue; }
    fill(db, size);
    gint used = dbmemsegh(db)->free;
    char *before = malloc(used);
    memcpy(before, dbmemseg(db), used);
    gint r = rnd(2) ? wg_dump(db, f1) : wg_dump_internal(db, f1, 0);
    if (r) { vio("dump-failed", "wg_dump gives %ld", r, 0); continue; }
    if (dbmemsegh(db)->free != used) vio("dump-changed-db", "free was %ld is %ld", used, dbmemsegh(db)->free);
    long n; char *img = slurp(f1, &n);
    if (!img || n != used) { vio("dump-size", "the file has %ld bytes, the database %ld", n, used); continue; }
    r = wg_check_dump(NULL, f1, &mn, &mx);
    nchecked++;
    if (r) { vio("good-refused", "wg_check_dump gives %ld on a dump just written", r, 0); continue; }
    if (mn != used || mx != size) vio("sizes", "wg_check_dump says %ld %ld", mn, mx);
    /* back, into a database of the original size, of the least size or a bigger one, with content of its own */
    gint size2 = rnd(3) ? size : (rnd(2) ? mn : size + rnd(100000));
    db2 = wg_attach_local_database(size2);
    if (db2) {
      if (rnd(2)) fill(db2, size2);
      r = wg_import_dump(db2, f1);
      nround++;
      if (r) vio("import-failed", "wg_import_dump gives %ld", r, 0);
      else {
        char *after = dbmemseg(db2);
        long d = 0, lo = -1, i;
        db_memsegment_header *h = (db_memsegment_header *)after;
        char *l0 = (char *)offsettoptr(db2, h->locks.queue_lock) - after + (char *)0;
        long lq = (long)l0, le = h->locks.storage + h->locks.max_nodes * SYN_VAR_PADDING;
        for (i = 0; i < used; i++) {
          if (after[i] == before[i]) continue;
          if (i >= lq && i < le) continue;
          if (i >= (char *)&h->size - after && i < (char *)(&h->size + 1) - after) continue;
          if (i >= (char *)&h->checksum - after && i < (char *)&h->checksum + sizeof(h->checksum) - after) continue;
          if (i >= (char *)&h->locks - after && i < (char *)(&h->locks + 1) - after) continue;
          if (i >= (char *)&h->key - after && i < (char *)(&h->key + 1) - after) continue;
          if (lo < 0) lo = i;
          d++;
        }
        if (d) vio("content-differs", "%ld bytes differ after loading, the first at %ld", d, lo);
        if (h->size != size2) vio("size-lost", "the loaded database claims %ld bytes and has %ld", h->size, size2);
        /* and on: the loaded one is usable and dumps again */
        fill(db2, size2);
        r = wg_dump(db2, f2);
        if (r || wg_check_dump(NULL, f2, &mn, &mx)) vio("second-dump", "a loaded database does not dump again: %ld", r, 0);
      }
      wg_delete_local_database(db2);
    }
    /* a database too small must refuse */
    /* damaged files */
    for (m = 0; m < 40; m++) {
      char *bad = malloc(n + 20000);
      long k = n, i, a, l;
      int kind = rnd(11);
      memcpy(bad, img, n);
      switch (kind) {
      case 0: bad[rnd(n)] ^= 1 << rnd(8); break;
      case 1: bad[rnd(sizeof(db_memsegment_header))] ^= 1 << rnd(8); break;
      case 2: bad[rnd(n)] = rnd(256); break;
      case 3: a = rnd(n); l = 1 + rnd(rnd(2) ? 16 : 8192); if (a + l > n) l = n - a; memset(bad + a, rnd(2) ? 0 : rnd(256), l); break;
      case 4: k = rnd(3) ? n - 1 - rnd(rnd(2) ? 10 : n - 1) : rnd(9000); if (k < 0) k = 0; break;
      case 5: k = n + 1 + rnd(rnd(2) ? 8 : 16384); memset(bad + n, rnd(2) ? 0 : 'x', k - n); break;
      case 6: a = rnd(n - 4096); l = rnd(n - 4096); for (i = 0; i < 4096; i++) { char t = bad[a + i]; bad[a + i] = bad[l + i]; bad[l + i] = t; } break;
      case 7: a = rnd(n); memmove(bad + a, bad + a + 1, n - a - 1); break;
      case 8: memset(bad + (n / 512) * 512 * (rnd(100) + 1) / 102, 0, 512); break;
      case 9: /* an interrupted dump: a prefix of whole blocks, the rest zero, the checksum not yet there */
        ((db_memsegment_header *)bad)->checksum = 0; k = rnd(2) ? n : rnd(n / 4096 + 1) * 4096; break;
      case 10: for (i = 1 + rnd(30); i > 0; i--) bad[rnd(n)] += 1 + rnd(255); break;
      }
      int same = k == n && !memcmp(bad, img, n);
      spit(f2, bad, k);
      mn = mx = 0;
      r = wg_check_dump(NULL, f2, &mn, &mx);
      nchecked++;
      if (same) { nsame++; if (r) vio("good-refused", "an identical file is refused: %ld", r, 0); }
      else if (!r) vio("damaged-accepted", "a damaged file (damage %ld, %ld bytes) is accepted", kind, k);
      else nrefused++;
      free(bad);
    }
    wg_delete_local_database(db);
    free(before); free(img);
  }
  printf("COUNTS checked=%ld refused=%ld same=%ld records=%ld roundtrips=%ld violations=%ld\n", nchecked, nrefused, nsame, nrec, nround, nvio);
  return 0;
}
