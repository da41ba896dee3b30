// Trace of the matches of P10: what the bodies of the clauses report is folded into one hash per match.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
typedef uint64_t u64;
static u64 hash, idx, active, verbose;
static FILE *out;
static void ev(u64 v) {
  if (verbose) fprintf(out, " %llu", (unsigned long long)v);
  for (int i = 0; i < 8; i++) hash = (hash ^ (v >> (8 * i) & 255)) * 0x100000001b3ull;
}
uint8_t p10_next(u64 id, u64 n) {
  if (!out) {
    const char *o = getenv("P10_OUT"), *v = getenv("P10_VERBOSE");
    out = fopen(o ? o : "/dev/null", "w");
    if (!out) abort();
    setvbuf(out, NULL, _IOLBF, 0);
    verbose = v && atoi(v);
  }
  if (!active) active = 1, idx = 0, hash = 0xcbf29ce484222325ull;
  else idx++;
  if (idx < n) { ev(7000 + idx); return 1; }
  active = 0;
  fprintf(out, "%llu %llx\n", (unsigned long long)id, (unsigned long long)hash);
  return 0;
}
u64 p10_cur(void) { return idx; }
void p10_e(u64 v) { ev(v); }
typedef struct { const char *p; u64 n; } Str;
void p10_s(Str s) { ev(s.n); for (u64 i = 0; i < s.n; i++) ev((unsigned char)s.p[i]); }
void p10_done(void) { if (out) fprintf(out, "done\n"), fflush(out); }
