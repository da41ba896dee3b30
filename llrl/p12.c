// Tape and trace of the programs of P12. Every function under test is run for every sequence of answers its conditions
// can get, branching on the first P12_DEPTH of them; what it does is folded into one hash per function.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef uint64_t u64;
typedef int64_t i64;

static unsigned char tape[64];
static int len, used, depth, active, verbose;
static u64 hash, cur, runs, misaligned, broken;
static FILE *out;

static void ev(u64 k, u64 v) {
  hash = (hash ^ (k * 65536 + v)) * 0x100000001b3ull;
  if (verbose) fprintf(out, k == 3 ? " =%llu\n" : k == 2 ? " h%llu" : k == 1 ? " b%llu" : " t%llu", (unsigned long long)v);
}
// the stack is 16-byte aligned at every call of a C function
#define ALIGNED() if ((u64)__builtin_frame_address(0) & 15) misaligned++

static void begin(u64 id) {
  cur = id, hash = 0xcbf29ce484222325ull, active = 1, len = 0, runs = misaligned = broken = 0;
}
uint8_t p12_next(u64 id) {
  ALIGNED();
  if (!out) {
    const char *o = getenv("P12_OUT"), *d = getenv("P12_DEPTH"), *v = getenv("P12_VERBOSE");
    out = fopen(o ? o : "/dev/null", "w");
    if (!out) abort();
    setvbuf(out, NULL, _IOLBF, 0);
    depth = d ? atoi(d) : 4;
    verbose = v && atoi(v);
  }
  if (!active) begin(id);
  else {
    if (used < len) len = used;
    while (len < used && len < depth) tape[len++] = 0;
    while (len && tape[len - 1]) len--;
    if (!len) {
      active = 0;
      fprintf(out, "%llu %llx %llu%s%s\n", (unsigned long long)cur, (unsigned long long)hash, (unsigned long long)runs, misaligned ? " misaligned" : "", broken ? " broken" : "");
      return 0;
    }
    tape[len - 1] = 1;
  }
  used = 0, runs++;
  return 1;
}
uint8_t p12_b(u64 k) {
  ALIGNED();
  ev(1, k);
  int v = used < len ? tape[used] : 0;
  used++;
  return v;
}
void p12_done(void) { if (out) fprintf(out, "done\n"), fflush(out); }

static u64 mix(u64 a, u64 b) { return (a * 7 + b * 3 + 1) % 101; }
i64 p12_t(u64 k) { ALIGNED(); ev(0, k); return k % 101; }
i64 p12_h(i64 x, i64 y) { ALIGNED(); ev(2, x * 101 + y); return mix(x, y); }
i64 p12_arg(void) { return 7; }
void p12_result(i64 v) { ALIGNED(); ev(3, v); }
// whether the parts of a value still belong together
i64 p12_same(i64 v, i64 w) { ALIGNED(); if (v != w || v < 0 || v >= 101) broken++; return v; }
