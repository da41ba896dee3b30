// Cases and reference for P22: texts to parse, values to print, and what has to come out of both.
#define _GNU_SOURCE
#include <errno.h>
#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef __int128 i128;
typedef uint64_t u64;
typedef struct { unsigned char *p; u64 n; } str;

static FILE *log_;
static u64 total, bad, here;
static const char *T; // current type
static _Alignas(16) unsigned char buf[16];
static char *text_;
static size_t len_;
static unsigned radix_;

static void put(const char *p, size_t n) {
  for (size_t i = 0; i < n && i < 120; i++) fprintf(log_, (unsigned char)p[i] > 32 && (unsigned char)p[i] < 127 ? "%c" : "\\x%02x", (unsigned char)p[i]);
}
static void open_log(void) { if (!log_) log_ = fopen(getenv("P22_OUT") ? getenv("P22_OUT") : "/dev/null", "w"); }
static int deep(void) { return getenv("P22_DEEP") != NULL; }

static int isf(void) { return T[0] == 'F'; }
static int bits(void) { return atoi(T + 1); }
static i128 tmin(void) { return T[0] == 'I' ? -((i128)1 << (bits() - 1)) : 0; }
static i128 tmax(void) { return T[0] == 'I' ? ((i128)1 << (bits() - 1)) - 1 : ((i128)1 << bits()) - 1; }
static i128 get(void) {
  u64 v = 0;
  memcpy(&v, buf, bits() / 8);
  if (T[0] != 'I') return v;
  return (i128)((int64_t)(v << (64 - bits())) >> (64 - bits()));
}
static u64 raw(void) { u64 v = 0; memcpy(&v, buf, bits() / 8); return v; }

static void complain(const char *what) {
  open_log();
  bad++;
  if (here++ >= 4) return;
  fprintf(log_, "%s/%s radix %u text ", what, T, radix_);
  put(text_, len_);
  if (isf()) fprintf(log_, " bits %llx\n", (unsigned long long)raw());
  else fprintf(log_, " value %lld\n", (long long)get());
}

// ---- reference ------------------------------------------------------------------------------------------------
static int digit(unsigned char c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'z') return c - 'a' + 10;
  if (c >= 'A' && c <= 'Z') return c - 'A' + 10;
  return 99;
}
static int ref_int(const char *p, size_t n, unsigned radix, i128 *out) {
  int neg = 0;
  size_t i = 0;
  if (T[0] == 'I' && n && p[0] == '-') { neg = 1; i = 1; }
  if (i == n) return 0;
  i128 v = 0, top = (i128)1 << 70;
  for (; i < n; i++) {
    if (digit(p[i]) >= (int)radix) return 0;
    v = v * radix + digit(p[i]);
    if (v > top) v = top;
  }
  if (neg) v = -v;
  *out = v;
  return v >= tmin() && v <= tmax();
}
// 1: has to be this value, 0: has to fail, -1: may do either
static int ref_float(const char *p, size_t n, u64 *out) {
  char *z = malloc(n + 1), *e;
  memcpy(z, p, n);
  z[n] = 0;
  errno = 0;
  double d = 0;
  float f = 0;
  int inf, zero;
  if (bits() == 32) { f = strtof(z, &e); inf = isinf(f); zero = f == 0; uint32_t w; memcpy(&w, &f, 4); *out = w; }
  else { d = strtod(z, &e); inf = isinf(d); zero = d == 0; memcpy(out, &d, 8); }
  int all = e == z + n && strlen(z) == n && n;
  int err = errno == ERANGE;
  // -?digits[.digits][e[+-]digits]
  size_t i = 0, k;
  if (i < n && z[i] == '-') i++;
  int plain = 1, lead0 = i + 1 < n && z[i] == '0' && z[i + 1] >= '0' && z[i + 1] <= '9';
  for (k = i; i < n && z[i] >= '0' && z[i] <= '9'; i++);
  if (i == k) plain = 0;
  if (i < n && z[i] == '.') { i++; for (k = i; i < n && z[i] >= '0' && z[i] <= '9'; i++); if (i == k) plain = 0; }
  if (i < n && (z[i] == 'e' || z[i] == 'E')) { i++; if (i < n && (z[i] == '+' || z[i] == '-')) i++; for (k = i; i < n && z[i] >= '0' && z[i] <= '9'; i++); if (i == k) plain = 0; }
  if (i != n) plain = 0;
  int word = !strcmp(z, "inf") || !strcmp(z, "-inf") || !strcmp(z, "nan") || !strcmp(z, "-nan");
  int space = n && (z[0] == ' ' || (z[0] >= 9 && z[0] <= 13));
  free(z);
  if (!all || space) return 0;
  if (err && (inf || zero)) return 0; // what it denotes is out of range
  if (word) return 1;
  if (plain && !lead0) return 1;
  return -1; // spellings the library may or may not know
}

// ---- texts to parse -------------------------------------------------------------------------------------------
static int radixes[40], nradix;
static unsigned char alpha[300];
static int nalpha, maxlen, ri, phase;
static int idx[16], L;
static char tb[4096];
static int have;

static i128 bound[4000];
static int nbound, bi, variant;
static const u64 F64S[] = {0, 1, 2, 3, 0x000fffffffffffff, 0x0010000000000000, 0x0010000000000001, 0x3ff0000000000000, 0x3fefffffffffffff, 0x3ff0000000000001, 0x3fe0000000000000, 0x3ff8000000000000, 0x4004000000000000,
  0x3fb999999999999a, 0x3fd3333333333334, 0x400921fb54442d18, 0x4024000000000000, 0x430c6bf526340000, 0x4341c37937e08000, 0x4340000000000000, 0x4340000000000001, 0x44b52d02c7e14af6, 0x7fefffffffffffff, 0x7fe0000000000000, 0x7ff0000000000000, 0x7ff8000000000000};
static const uint32_t F32S[] = {0, 1, 2, 3, 0x007fffff, 0x00800000, 0x00800001, 0x3f800000, 0x3f7fffff, 0x3f800001, 0x3f000000, 0x3dcccccd, 0x3e99999a, 0x3e99999b, 0x40490fdb, 0x4b000001, 0x4b7fffff, 0x4b800000, 0x4b800001, 0x501502f9, 0x7f7fffff, 0x7f7ffffe, 0x7f800000, 0x7fc00000};
static u64 fval(u64 k, int *ok) { // the k-th value to print
  int w = bits();
  u64 n = w == 32 ? sizeof F32S / 4 : sizeof F64S / 8, sign = k & 1;
  k >>= 1;
  u64 v;
  *ok = 1;
  if (k < n) v = w == 32 ? F32S[k] : F64S[k];
  else {
    k -= n;
    int mb = w == 32 ? 23 : 52, ex = w == 32 ? 256 : 2048;
    // all exponents with mantissas of one, two or no set bits, their complements and decimal-unfriendly patterns
    u64 nm = mb + 6 + (deep() ? mb * (mb - 1) / 2 : 0);
    u64 e = k / nm, m = k % nm, mm = 0, full = ((u64)1 << mb) - 1;
    if (e >= (u64)ex) { *ok = 0; return 0; }
    if (m < (u64)mb) mm = (u64)1 << m;
    else if (m == (u64)mb) mm = 0;
    else if (m == (u64)mb + 1) mm = full;
    else if (m == (u64)mb + 2) mm = full - 1;
    else if (m == (u64)mb + 3) mm = 0x5555555555555555 & full;
    else if (m == (u64)mb + 4) mm = 0x3333333333333333 & full;
    else if (m == (u64)mb + 5) mm = 0x123456789abcdef & full;
    else {
      int a = 1; u64 q = m - mb - 6;
      while (q >= (u64)a) q -= a++;
      mm = (u64)1 << a | (u64)1 << q;
    }
    v = e << mb | mm;
  }
  return v | sign << (w - 1);
}
static void fmt(i128 v, unsigned radix, int upper, char *o) {
  char t[200];
  int n = 0, neg = v < 0;
  unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v;
  do { int d = u % radix; t[n++] = d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10; u /= radix; } while (u);
  if (neg) t[n++] = '-';
  for (int i = 0; i < n; i++) o[i] = t[n - 1 - i];
  o[n] = 0;
}
static u64 fk;
static const char *FT[] = {"1e400", "-1e400", "1e-400", "-1e-400", "1e39", "3.4028235e38", "3.4028236e38", "3.40282356e38", "3.402823466e+38", "1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "4.9e-324", "2.4e-324", "2.5e-324", "1.4e-45", "0.7e-45", "1e-46", "1e-310", "1e-40", "2.2250738585072011e-308", "9007199254740993", "9007199254740992.99999999999999999999999999", "0.1", "0.3", "123456789012345678901234567890", "inf", "-inf", "nan", "-nan", "infinity", "+1", "1e5000000000", "1e-5000000000", "0e5000000000", "-0", "-0.0", "0.0000", "1_0", "1,5", "1.5f", "1.5d", "0x1p3", "1e", "1e+", "-", ".", "-.", "e5", ".5", "5.", "00", "01", "-01", "0x", "inff", "na", "1\0", " 1", "1 ", "\t1", "\n1", "- 1", "--1", "1.5.5", "1e5.5", "1e5e5"};

static void radices(void) {
  nradix = 0;
  for (int r = 2; r <= 36; r++) if (deep() || r == 2 || r == 3 || r == 8 || r == 10 || r == 16 || r == 35 || r == 36) radixes[nradix++] = r;
}
static void alphabet(void) {
  nalpha = 0;
  if (isf()) { memcpy(alpha, "0159.eE+-xn ", nalpha = 12); maxlen = deep() ? 6 : 5; return; }
  if (phase == 1) { for (int i = 0; i < 256; i++) alpha[nalpha++] = i; maxlen = 2; return; }
  unsigned r = radixes[ri];
  const char *lo = "0123456789abcdefghijklmnopqrstuvwxyz{", *up = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ[";
  unsigned char c[] = {'-', '+', '0', '1', lo[r - 1], lo[r], ' ', '_', 0, up[r - 1]};
  for (unsigned i = 0; i < sizeof c; i++) if (!memchr(alpha, c[i], nalpha)) alpha[nalpha++] = c[i];
  maxlen = deep() ? 5 : 4;
}
static void bounds(void) {
  nbound = 0;
  int w = bits();
  i128 b[] = {0, tmin(), tmax(), -tmax(), (i128)1 << 63, -((i128)1 << 63), (i128)1 << 64, -((i128)1 << 64), (i128)1 << w, (i128)1 << (w - 1), 255, 65535, 4294967295, tmax() / 3, ((i128)1 << 63) * 10, ((i128)1 << 64) * 10, ((i128)1 << 64) * 36, ((i128)1 << 64) + ((i128)1 << 63), ((i128)1 << 69)};
  for (unsigned i = 0; i < sizeof b / sizeof *b; i++) for (int d = -40; d <= 40; d++) bound[nbound++] = b[i] + d;
}
static int next_text(void) {
  if (!have) { have = 1; phase = 0; ri = 0; L = 0; fk = 0; bi = variant = 0; radices(); alphabet(); if (!isf()) bounds(); memset(idx, 0, sizeof idx); goto emit; }
  if (phase < 2) {
    int i = 0;
    while (i < L && ++idx[i] == nalpha) idx[i++] = 0;
    if (i == L) {
      L++;
      if (L > maxlen) {
        L = 0;
        if (isf()) phase = 2;
        else if (++ri == nradix || (phase == 1 && 0)) { ri = 0; phase++; }
        alphabet();
      }
    }
  emit:
    if (phase < 2) {
      radix_ = isf() ? 10 : radixes[ri];
      for (int i = 0; i < L; i++) tb[i] = alpha[idx[i]];
      text_ = tb; len_ = L;
      return 1;
    }
  }
  if (isf()) {
    u64 nt = sizeof FT / sizeof *FT;
    if (fk < nt) { text_ = (char *)FT[fk]; len_ = strlen(FT[fk]); if (!strcmp(text_, "1")) len_ = 2; fk++; return 1; }
    for (;;) {
      int ok;
      u64 k = (fk - nt) / 7, form = (fk - nt) % 7;
      u64 v = fval(k, &ok);
      if (!ok || k >= (deep() ? 20000 : 4000)) { have = 0; return 0; }
      fk++;
      double d;
      if (bits() == 32) { float f; uint32_t w = v; memcpy(&f, &w, 4); d = f; } else memcpy(&d, &v, 8);
      static const char *fs[] = {"%.17g", "%.9g", "%.3e", "%.25e", "%.70e", "%.1f", "%.60f"};
      len_ = snprintf(tb, sizeof tb, fs[form], d);
      text_ = tb;
      return 1;
    }
  }
  // the neighbourhoods of all bounds
  if (bi == nbound) { bi = 0; variant++; }
  if (variant == 4) { variant = 0; ri++; }
  if (ri == nradix) { have = 0; return 0; }
  radix_ = radixes[ri];
  char o[300];
  fmt(bound[bi++], radix_, variant & 1, o);
  int neg = o[0] == '-', z = variant == 2 ? 1 : variant == 3 ? 70 : 0;
  len_ = sprintf(tb, "%s%.*s%s", neg ? "-" : "", z, "0000000000000000000000000000000000000000000000000000000000000000000000", o + neg);
  text_ = tb;
  return 1;
}

u64 p22_text(str ty) { // 1: there is another text to parse into ty
  static char name[8];
  if (!have) { memcpy(name, ty.p, ty.n); name[ty.n] = 0; T = name; here = 0; }
  memset(buf, 0xa5, sizeof buf);
  return next_text();
}
str p22_str(void) { return (str){(unsigned char *)text_, len_}; }
uint8_t p22_radix(void) { return radix_; }
void *p22_buf(void) { return buf; }
u64 p22_parsed(u64 some) {
  total++;
  if (isf()) {
    u64 w;
    int r = ref_float(text_, len_, &w);
    if (some && !r) complain("accepts a text that is no number");
    else if (!some && r == 1) complain("refuses a number");
    else if (some && raw() != w) {
      int nan = bits() == 32 ? (w & 0x7fffffff) > 0x7f800000 && (raw() & 0x7fffffff) > 0x7f800000 : (w & ~((u64)1 << 63)) > 0x7ff0000000000000 && (raw() & ~((u64)1 << 63)) > 0x7ff0000000000000;
      if (!nan) complain("parses to another value");
    }
    return 0;
  }
  i128 v = 0;
  int r = ref_int(text_, len_, radix_, &v);
  if (some && !r) complain("accepts a text that is no number of the type");
  else if (!some && r) complain("refuses a number");
  else if (some && get() != v) complain("parses to another value");
  return 0;
}

// ---- values to print ------------------------------------------------------------------------------------------
static u64 vi;
static int nradix2;
u64 p22_value(str ty) {
  static char name[8];
  if (!have) {
    memcpy(name, ty.p, ty.n); name[ty.n] = 0; T = name; here = 0;
    have = 1; vi = 0; ri = 2;
    if (!isf()) bounds();
  }
  for (;; vi++) {
    if (isf()) {
      int ok;
      u64 v = fval(vi, &ok);
      if (!ok) { have = 0; return 0; }
      memcpy(buf, &v, 8);
      radix_ = 10;
      vi++;
      return 1;
    }
    i128 v;
    if (bits() == 8 || (bits() == 16 && deep())) {
      if (vi >> bits()) { vi = -1; if (++ri > 36) { have = 0; return 0; } continue; }
      v = vi;
    } else {
      if (vi >= (u64)nbound) { vi = -1; if (++ri > 36) { have = 0; return 0; } continue; }
      v = bound[vi];
      if (v < tmin() || v > tmax()) continue;
    }
    u64 w = (u64)v;
    memcpy(buf, &w, 8);
    radix_ = ri;
    vi++;
    return 1;
  }
}
static int nan_(u64 v) { return bits() == 32 ? ((uint32_t)v & 0x7fffffff) > 0x7f800000 : (v & ~((u64)1 << 63)) > 0x7ff0000000000000; }
// what printing gave; the text is kept for reading it back
u64 p22_printed(str s) {
  total++;
  text_ = (char *)s.p; len_ = s.n;
  if (isf()) {
    u64 w;
    int ok = ref_float(text_, len_, &w) == 1;
    if (!ok) complain("prints a text that is no number");
    else if (nan_(w) != nan_(raw()) || (!nan_(w) && w != raw())) complain("prints the text of another value");
    return 0;
  }
  char o[200];
  fmt(get(), radix_, 0, o);
  if (strlen(o) != len_ || memcmp(o, text_, len_)) complain("prints another text");
  return 0;
}
static u64 kept;
u64 p22_keep(void) { kept = raw(); memset(buf, 0xa5, sizeof buf); return 0; }
u64 p22_again(u64 some) {
  total++;
  if (!some) complain("does not parse the text printed");
  else if (raw() != kept && !(isf() && nan_(raw()) && nan_(kept))) complain("parses the text printed to another value");
  u64 k = kept;
  memcpy(buf, &k, bits() / 8);
  return 0;
}

// ---- literals -------------------------------------------------------------------------------------------------
u64 p22_lit(str ty, str text, u64 want) {
  static char name[8];
  memcpy(name, ty.p, ty.n); name[ty.n] = 0;
  T = name; text_ = (char *)text.p; len_ = text.n; radix_ = 10; here = 0;
  total++;
  if (raw() != want) complain("the literal has another value");
  memset(buf, 0xa5, sizeof buf);
  return 0;
}
u64 p22_done(void) {
  open_log();
  fprintf(log_, "total %llu bad %llu\n", (unsigned long long)total, (unsigned long long)bad);
  fflush(log_);
  return 0;
}
