// Checks made by the programs of P14: counted, and compared with what the value was made from.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef uint64_t u64;
static u64 route, checks, fails;
static char why[200];
static FILE *out;
static void flush(void) {
  if (!out) {
    const char *o = getenv("P14_OUT");
    out = fopen(o && *o ? o : "/dev/null", "w");
    if (!out) abort();
    setvbuf(out, NULL, _IOLBF, 0);
  } else fprintf(out, "%llu %llu %llu %s\n", (unsigned long long)route, (unsigned long long)checks, (unsigned long long)fails, why);
  checks = fails = 0, why[0] = 0;
}
static void check(int ok, const char *what, u64 got, u64 want) {
  checks++;
  if (!ok && !fails++) snprintf(why, sizeof why, "%s %llx instead of %llx", what, (unsigned long long)got, (unsigned long long)want);
}
#define ALIGNED() check(((u64)__builtin_frame_address(0) & 15) == 0, "stack alignment", (u64)__builtin_frame_address(0) & 15, 0)
void p14_route(u64 r) { ALIGNED(); flush(); route = r; }
void p14_done(void) { ALIGNED(); flush(); fprintf(out, "done\n"); fflush(out); }
void p14_bad(u64 n) { check(0, "wrong branch", n, 0); }
void p14_tag(u64 a, u64 b) { check(a == b, "constructor", a, b); }
void p14_unit(u64 n) { check(1, "", n, n); }
uint8_t p14_bit(u64 n) { ALIGNED(); return n != 0; }
u64 p14_sum(u64 a, u64 b) { return a + b; }
// the smallest piece of memory aligned to 64 bytes, between canaries
static _Alignas(64) unsigned char mem[64 + 5 * 512 + 64];
void *p14_mem(void) { memset(mem, 0xee, sizeof mem); return mem + 64; }
void p14_mem_check(u64 n, u64 align) {
  for (u64 i = 0; i < sizeof mem; i++) if (i < 64 || i >= 64 + n) { if (mem[i] != 0xee) { check(0, "byte outside the value", i - 64, n); return; } }
  check(align <= 16, "alignment", align, 16);
}
static char str[256];
char *p14_str(void) { for (int i = 0; i < 256; i++) str[i] = 'a' + i % 26; return str; }
typedef struct { const char *p; u64 n; } Str;
void p14_str_check(Str s, u64 n) { check(s.p == str && s.n == n, "string length", s.n, n); }
#define PRIM(N, T, B) \
  static void mk_##N(T *p, u64 n) { B b = (B)(n * 72340172838076673ull); memcpy(p, &b, sizeof b); } \
  void p14_ck_##N(T v, u64 n) { B b, w = (B)(n * 72340172838076673ull); memcpy(&b, &v, sizeof b); check(b == w, #N, b, w); }
PRIM(I8, int8_t, uint8_t) PRIM(I16, int16_t, uint16_t) PRIM(I32, int32_t, uint32_t) PRIM(I64, int64_t, uint64_t) PRIM(F32, float, uint32_t) PRIM(F64, double, uint64_t)
