// Operand source and reference for P13: every operation is recomputed here with 128-bit integers, or with the
// compiler's IEEE-754 arithmetic, on operands the program under test reads from memory.
#define _GNU_SOURCE
#include <fcntl.h>
#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
typedef __int128 i128;
typedef uint64_t u64;

static FILE *log_;
static u64 bad, total, here;
static _Alignas(64) unsigned char A[64], B[64], R[64], W[64];
void *p13_buf(u64 k) { return k == 0 ? A : k == 1 ? B : k == 2 ? R : W; }

static void note(const char *fmt, const char *op, const char *t, u64 a, u64 b, u64 got, u64 want) {
  if (!log_) log_ = fopen(getenv("P13_OUT") ? getenv("P13_OUT") : "/dev/null", "w");
  bad++;
  if (here++ < 4) fprintf(log_, fmt, op, t, (unsigned long long)a, (unsigned long long)b, (unsigned long long)got, (unsigned long long)want);
}

static int size(const char *t) { return t[0] == 'b' ? 1 : t[0] == 'c' ? 4 : t[0] == 'p' ? 8 : atoi(t + 1) / 8; }
static u64 get(const void *p, const char *t) { u64 v = 0; memcpy(&v, p, size(t)); return v; }
static i128 val(u64 v, const char *t) {
  int n = size(t) * 8;
  if (n < 64) v &= (1ull << n) - 1;
  if (t[0] != 'i') return v;
  return n == 64 ? (i128)(int64_t)v : (v >> (n - 1)) & 1 ? (i128)v - ((i128)1 << n) : (i128)v;
}
static u64 wrap(i128 v, const char *t) { int n = size(t) * 8; return n == 64 ? (u64)v : (u64)v & ((1ull << n) - 1); }
static float f32(u64 v) { float f; uint32_t w = v; memcpy(&f, &w, 4); return f; }
static double f64(u64 v) { double f; memcpy(&f, &v, 8); return f; }
static u64 b32(float f) { uint32_t w; memcpy(&w, &f, 4); return w; }
static u64 b64(double f) { u64 w; memcpy(&w, &f, 8); return w; }
static int isnan_(u64 v, const char *t) { return t[0] == 'f' && (size(t) == 4 ? isnan(f32(v)) : isnan(f64(v))); }

static i128 tmin(const char *t) { return t[0] == 'i' ? -((i128)1 << (size(t) * 8 - 1)) : 0; }
static i128 tmax(const char *t) { return t[0] == 'i' ? ((i128)1 << (size(t) * 8 - 1)) - 1 : ((i128)1 << (size(t) * 8)) - 1; }

// Computes op on bits a, b of type t into type r; returns 0 where the language leaves the result open.
static int reference(const char *op, const char *t, const char *r, u64 a, u64 b, u64 *out) {
#define IS(s) (!strcmp(op, s))
  if (IS("conv")) {
    if (t[0] == 'f') {
      if (r[0] == 'f') { // float to float
        if (size(t) == size(r)) *out = a;
        else *out = size(r) == 4 ? b32((float)f64(a)) : b64((double)f32(a));
        return 1;
      }
      long double x = size(t) == 4 ? f32(a) : f64(a);
      if (isnan(x)) return 0;
      x = truncl(x);
      if (x < (long double)tmin(r) || x > (long double)tmax(r) || (size(r) == 8 && x >= (r[0] == 'i' ? 0x1p63L : 0x1p64L))) return 0;
      *out = wrap((i128)x, r);
      return 1;
    }
    i128 v = val(a, t);
    if (r[0] == 'f') *out = size(r) == 4 ? (t[0] == 'i' ? b32((float)(int64_t)v) : b32((float)(u64)v)) : (t[0] == 'i' ? b64((double)(int64_t)v) : b64((double)(u64)v));
    else *out = wrap(v, r);
    return 1;
  }
  if (IS("reinterpret")) { *out = a; return 1; }
  if (t[0] == 'f') {
    int s = size(t) == 4;
    float x = f32(a), y = f32(b);
    double p = f64(a), q = f64(b);
    volatile float fr; volatile double dr;
#define F2(name, e4, e8) if (IS(name)) { if (s) { fr = (e4); *out = b32(fr); } else { dr = (e8); *out = b64(dr); } return 1; }
    F2("add", x + y, p + q) F2("sub", x - y, p - q) F2("mul", x * y, p * q) F2("div", x / y, p / q)
    F2("rem", fmodf(x, y), fmod(p, q)) F2("pow", powf(x, y), pow(p, q))
    F2("ceil", ceilf(x), ceil(p)) F2("floor", floorf(x), floor(p)) F2("trunc", truncf(x), trunc(p)) F2("round", roundf(x), round(p))
    F2("sqrt", sqrtf(x), sqrt(p)) F2("sin", sinf(x), sin(p)) F2("cos", cosf(x), cos(p)) F2("exp", expf(x), exp(p)) F2("log", logf(x), log(p))
#define FC(name, o) if (IS(name)) { *out = s ? x o y : p o q; return 1; }
    FC("eq?", ==) FC("lt?", <) FC("le?", <=) FC("gt?", >) FC("ge?", >=)
    abort();
  }
  i128 x = val(a, t), y = val(b, t);
  int n = size(t) * 8, sgn = t[0] == 'i';
  i128 v = 0;
  if (IS("eq?")) { *out = x == y; return 1; }
  if (IS("lt?")) { *out = x < y; return 1; }
  if (IS("le?")) { *out = x <= y; return 1; }
  if (IS("gt?")) { *out = x > y; return 1; }
  if (IS("ge?")) { *out = x >= y; return 1; }
  if (IS("not")) { *out = !a; return 1; }
  if (IS("&&")) { *out = a & b; return 1; }
  if (IS("||")) { *out = a | b; return 1; }
  if (IS("bw&")) { *out = a & b; return 1; }
  if (IS("bw|")) { *out = a | b; return 1; }
  if (IS("bw^")) { *out = a ^ b; return 1; }
  if (IS("bw!")) { *out = wrap(~(i128)a, t); return 1; }
  if (IS("popcount")) { *out = __builtin_popcountll(wrap(a, t)); return 1; }
  if (IS("bw<<") || IS("bw>>")) {
    if (y < 0 || y >= n) return 0;
    *out = IS("bw<<") ? wrap((i128)((unsigned __int128)a << (int)y), t) : wrap(x >> (int)y, t);
    return 1;
  }
  if (IS("add")) v = x + y;
  else if (IS("sub")) v = x - y;
  else if (IS("mul")) { unsigned __int128 m = (unsigned __int128)x * (unsigned __int128)y; *out = wrap((i128)m, t); if (!sgn) return 1; v = x * y; }
  else if (IS("succ")) v = x + 1;
  else if (IS("pred")) v = x - 1;
  else if (IS("negate")) v = -x;
  else if (IS("abs")) v = x < 0 ? -x : x;
  else if (IS("div")) { if (!y) return 0; v = x / y; }
  else if (IS("rem")) { if (!y || x / y > tmax(t)) return 0; v = x % y; }
  else if (IS("offset")) { *out = b + a * (u64)atoi(r + 1); return 1; }
  else abort();
  if (sgn && (v < tmin(t) || v > tmax(t))) return 0;
  *out = wrap(v, t);
  return 1;
}

// ---- operands -------------------------------------------------------------------------------------------------
static u64 *vals(const char *t, int *n, int few) {
  static u64 v[70000];
  int k = 0;
#define PUT(x) v[k++] = wrap((i128)(x), t)
  if (t[0] == 'b') { PUT(0); PUT(1); }
  else if (t[0] == 'f' && size(t) == 4) {
    static const uint32_t s[] = {0, 1, 2, 0x007fffff, 0x00800000, 0x00800001, 0x3f800000, 0x3f7fffff, 0x3f800001, 0x3f000000, 0x3effffff, 0x3f000001, 0x3fc00000, 0x40200000, 0x3dcccccd, 0x40490fdb, 0x41200000,
      0x42fe0000, 0x42feffff, 0x42ff0000, 0x43000000, 0x437f0000, 0x437fff00, 0x437f8000, 0x43800000, 0x46fffe00, 0x46ffff00, 0x47000000, 0x477fff00, 0x477fff80, 0x4b000000, 0x4b000001, 0x4affffff, 0x4b7fffff, 0x4b800000, 0x4b800001, 0x4effffff, 0x4f000000, 0x4f7fffff,
      0x5effffff, 0x5f000000, 0x5f000001, 0x5f7fffff, 0x5f400000, 0x7f7fffff, 0x7f7ffffe, 0x7f800000, 0x7fc00000, 0x33800000, 0x34000000, 0x1e3ce508, 0x60ad78ec};
    for (unsigned i = 0; i < sizeof s / 4; i++) { v[k++] = s[i]; v[k++] = s[i] ^ 0x80000000u; }
  } else if (t[0] == 'f') {
    static const u64 s[] = {0, 1, 2, 0x000fffffffffffff, 0x0010000000000000, 0x3ff0000000000000, 0x3fefffffffffffff, 0x3ff0000000000001, 0x3fe0000000000000, 0x3fdfffffffffffff, 0x3fe0000000000001, 0x3ff8000000000000, 0x4004000000000000,
      0x3fb999999999999a, 0x400921fb54442d18, 0x4024000000000000, 0x405fc00000000000, 0x405fffffffffffff, 0x4060000000000000, 0x4060200000000000, 0x406fe00000000000, 0x406ffff000000000, 0x4070000000000000, 0x40dfffc000000000, 0x40dfffffffffffff, 0x40e0000000000000,
      0x40efffe000000000, 0x40efffffffffffff, 0x41dfffffffc00000, 0x41dfffffffffffff, 0x41e0000000000000, 0x41e0000000200000, 0x41efffffffe00000, 0x41efffffffffffff, 0x4330000000000000, 0x4330000000000001, 0x432fffffffffffff, 0x4340000000000000, 0x4340000000000001,
      0x43dfffffffffffff, 0x43e0000000000000, 0x43e0000000000001, 0x43e8000000000000, 0x43efffffffffffff, 0x47efffffe0000000, 0x47efffffefffffff, 0x47effffff0000000, 0x36a0000000000000, 0x3690000000000000, 0x3690000000000001, 0x380fffffc0000000, 0x3810000000000000, 0x7fefffffffffffff, 0x7fe0000000000000, 0x7ff0000000000000, 0x7ff8000000000000,
      0x3cb0000000000000, 0x3ff0000010000000, 0x3ff0000030000000, 0x3ff0000010000001};
    for (unsigned i = 0; i < sizeof s / 8; i++) { v[k++] = s[i]; v[k++] = s[i] ^ 0x8000000000000000ull; }
  } else {
    int w = size(t) * 8;
    if (w == 8 && few != 1) for (int i = 0; i < 256; i++) PUT(i);
    else if (w == 16 && few == 2) for (int i = 0; i < 65536; i++) PUT(i);
    else {
      for (int i = -3; i <= 10; i++) PUT(i);
      for (int i = 2; i <= w; i++) for (int d = -1; d <= 1; d++) { if (few != 1 || i == 8 || i == 16 || i == 32 || i == w || i == w - 1) { PUT(((i128)1 << i) + d); if (i == w - 1 || i == 31 || i == 15 || i == 7) PUT(-((i128)1 << i) + d); } }
      if (few == 3) // around the halfway points of conversions to floating point
        for (int i = 24; i < w; i++) for (int p = 24; p <= 53; p += 29) if (i >= p) for (int m = 1; m <= 7; m += 2) for (int d = -1; d <= 1; d++) {
          i128 x = ((i128)1 << i) + m * ((i128)1 << (i - p)) + d;
          PUT(x); PUT(-x); PUT(((i128)1 << i) * 2 - m * ((i128)1 << (i - p)) + d);
        }
      PUT(0x5555555555555555ull); PUT(0xaaaaaaaaaaaaaaaaull); PUT(0x0123456789abcdefull); PUT(0xfedcba9876543210ull); PUT(100); PUT(-100); PUT(255); PUT(65537);
    }
  }
  *n = k;
  return v;
}

static const char *OP, *T, *TR; // current operation
static u64 *va, *vb;
static int na, nb, ia, ib, unary, widen;
static u64 ca, cb;
static int have;

static void verify(u64 a, u64 b) {
  u64 want;
  int ok = reference(OP, T, TR, a, b, &want);
  total++;
  const char *rt = TR;
  if (!strcmp(OP, "offset")) rt = "p";
  u64 got = get(R, rt);
  if (!ok) return;
  if (isnan_(want, rt)) { if (!isnan_(got, rt)) note("%s/%s %llx %llx gives %llx instead of %llx\n", OP, T, a, b, got, want); }
  else if (got != want) note("%s/%s %llx %llx gives %llx instead of %llx\n", OP, T, a, b, got, want);
  else if (widen) { // the result converted to 64 bits
    u64 w = get(W, "u64");
    if (w != (u64)val(want, rt)) note("%s/%s %llx %llx: widening the result gives %llx instead of %llx\n", OP, T, a, b, w, (u64)val(want, rt));
  }
}

static u64 defined(u64 a, u64 b) { u64 o; return reference(OP, T, TR, a, b, &o); }

#include "p13_table.h"

static int thorough(void) { static int t = -1; if (t < 0) t = getenv("P13_DEEP") != NULL; return t; }

// Advances operation `id` to its next operands, having checked the previous result.
u64 p13_next(u64 id) {
  if (!have) {
    OP = TABLE[id].op; T = TABLE[id].t; TR = TABLE[id].r; unary = TABLE[id].unary; widen = TABLE[id].widen;
    u64 *p = vals(T, &na, unary && thorough() && size(T) == 2 && T[0] != 'f' ? 2 : !strcmp(OP, "conv") ? 3 : 0);
    va = malloc(8 * na); memcpy(va, p, 8 * na);
    if (!strcmp(OP, "offset")) { p = vals("u64", &nb, 1); }
    nb = unary ? 1 : nb && !strcmp(OP, "offset") ? nb : na;
    vb = malloc(8 * nb); memcpy(vb, p, 8 * nb);
    ia = ib = 0;
    here = 0;
    have = 1;
  } else {
    verify(ca, cb);
    if (++ib == nb) { ib = 0; ia++; }
  }
  for (; ia < na; ib = 0, ia++)
    for (; ib < nb; ib++)
      if (defined(va[ia], vb[ib])) {
        ca = va[ia]; cb = vb[ib];
        memset(A, 0xa5, 64); memset(B, 0x5a, 64); memset(R, 0xee, 64); memset(W, 0xee, 64);
        memcpy(A, &ca, size(T)); memcpy(B, &cb, strcmp(OP, "offset") ? size(T) : 8);
        return 1;
      }
  free(va); free(vb);
  have = 0;
  return 0;
}

// The operation `id` on operands written in the program.
u64 p13_lit(u64 id, u64 a, u64 b) {
  OP = TABLE[id].op; T = TABLE[id].t; TR = TABLE[id].r; widen = 0;
  static u64 last = -1;
  if (id != last) here = 0;
  last = id;
  verify(a, b);
  memset(R, 0xee, 64);
  return 0;
}

u64 p13_done(void) {
  here = 0;
  note("", "", "", 0, 0, 0, 0);
  fprintf(log_, "total %llu bad %llu\n", (unsigned long long)total, (unsigned long long)bad - 1);
  fflush(log_);
  return 0;
}
