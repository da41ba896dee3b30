// Cases and reference for P24. The compiled program asks what to do next and hands over what came out of it.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
typedef uint64_t u64;
typedef struct { char *p; u64 n; } str;
typedef struct { u64 kind, v; str s; } answer_t;
enum { OK = 1, ERR, NUM, BYTES, NONE, COMP, NAME };
enum { CLOSED = 1, NOTFOUND, DENIED, PIPE, EXISTS, INVAL, BADDATA, INTR, UNEOF, OTHER, MORE };

static ucontext_t main_, enum_;
static int op_, na, started;
static u64 nums[8], cases, steps, bad;
static str strs[8];
static answer_t A[400];
static FILE *log_;
static int deep;
static char what[4000];

static void complain(const char *fmt, ...) {
  bad++;
  if (bad > 40) return;
  va_list ap;
  va_start(ap, fmt);
  fprintf(log_, "V %s: ", what);
  vfprintf(log_, fmt, ap);
  fputc('\n', log_);
  va_end(ap);
  fflush(log_);
}
static str S(const char *s) { return (str){(char *)s, strlen(s)}; }
static str B(const void *p, u64 n) { return (str){(char *)p, n}; }
static int eq(str a, str b) { return a.n == b.n && (!a.n || !memcmp(a.p, b.p, a.n)); }
static char shown_[8][400];
static const char *sh(str s) {
  static int k;
  char *o = shown_[k = (k + 1) % 8], *e = o;
  *e++ = '"';
  for (u64 i = 0; i < s.n && i < 80; i++) e += sprintf(e, (unsigned char)s.p[i] > 32 && (unsigned char)s.p[i] < 127 ? "%c" : "\\x%02x", (unsigned char)s.p[i]);
  if (s.n > 80) e += sprintf(e, "...(%llu)", (unsigned long long)s.n);
  strcpy(e, "\"");
  return o;
}
static const char *ans(int i) {
  static char o[4][500];
  static int k;
  char *e = o[k = (k + 1) % 4];
  if (i >= na) return "nothing";
  answer_t a = A[i];
  if (a.kind == OK) strcpy(e, "ok");
  else if (a.kind == ERR) sprintf(e, "error %llu", (unsigned long long)a.v);
  else if (a.kind == NONE) strcpy(e, "none");
  else if (a.kind == NUM || a.kind == COMP) sprintf(e, "%llu", (unsigned long long)a.v);
  else sprintf(e, "%s", sh(a.s));
  return e;
}

// ---- the program's side -----------------------------------------------------------------------------------------
static void enumerate(void);
static char stack_[1 << 21];
u64 p24_next(void) {
  if (!started) {
    started = 1;
    getcontext(&enum_);
    enum_.uc_stack.ss_sp = stack_;
    enum_.uc_stack.ss_size = sizeof stack_;
    enum_.uc_link = &main_;
    makecontext(&enum_, enumerate, 0);
  }
  swapcontext(&main_, &enum_);
  return op_;
}
static void go(int op) {
  for (int i = 0; i < na; i++) free(A[i].s.p);
  na = 0;
  steps++;
  op_ = op;
  swapcontext(&enum_, &main_);
}
u64 p24_num(u64 i) { return nums[i]; }
str p24_str(u64 i) { return strs[i]; }
static void put(u64 kind, u64 v, str s) {
  if (na == 400) return;
  char *p = malloc(s.n + 1);
  memcpy(p, s.p, s.n);
  p[s.n] = 0;
  A[na++] = (answer_t){kind, v, {p, s.n}};
}
void p24_answer(u64 kind, u64 v) { put(kind, v, S("")); }
void p24_answer_bytes(u64 kind, char *p, u64 n) { put(kind, 0, B(p, n)); }
void p24_answer_string(u64 kind, str s) { put(kind, 0, s); }

// ---- choices ----------------------------------------------------------------------------------------------------
static int tape[400], lim[400], used, len_;
static int choose(int n) {
  if (used == len_) { tape[len_] = 0; lim[len_++] = n; }
  return tape[used++];
}
static int again(void) { // the next combination of choices
  while (len_ && tape[len_ - 1] + 1 == lim[len_ - 1]) len_--;
  used = 0;
  if (!len_) return 0;
  tape[len_ - 1]++;
  return 1;
}
static void restart(void) { used = len_ = 0; }

// ---- sources ----------------------------------------------------------------------------------------------------
static const char *content;
static u64 length, pos, calls;
static int err_seen, eof_seen, errors, coarse;
static int64_t deliver(char *p, u64 n) {
  u64 rem = length - pos, m = n < rem ? n : rem;
  calls++;
  if (!n) return 0;
  int k;
  if (coarse) k = calls > 4 || m < 2 ? choose(errors ? 2 : 1) * 2 : choose(errors ? 3 : 2);
  else if (!m) k = choose(errors ? 2 : 1) * (int)(m + 1);
  else k = choose((int)m + (errors ? 1 : 0));
  if (coarse) {
    if (k == 2) { err_seen = 1; return -1; }
    if (k == 1) m = (m + 1) / 2;
  } else if (m ? k == (int)m : k == 1) { err_seen = 1; return -1; }
  else if (m) m -= k; // from the longest to the shortest
  if (!m) { eof_seen = 1; return 0; }
  memcpy(p, content + pos, m);
  pos += m;
  return m;
}
int64_t p24_source(char *p, u64 n) { return deliver(p, n); }

static char sink[20000];
static u64 sunk;
static int wmode; // whether writes and close may fail
static ssize_t ck_read(void *c, char *p, size_t n) {
  int64_t k = deliver(p, n);
  if (k < 0) errno = EIO;
  return k;
}
static ssize_t ck_write(void *c, const char *p, size_t n) {
  if (wmode && !err_seen && choose(2)) { err_seen = 1; errno = EPIPE; return 0; }
  if (sunk + n > sizeof sink) abort();
  memcpy(sink + sunk, p, n);
  sunk += n;
  return n;
}
static int ck_close(void *c) {
  if (wmode && !err_seen && choose(2)) { err_seen = 1; errno = EPIPE; return -1; }
  return 0;
}
static int bufsize;
static char buf_[8192];
FILE *p24_cookie(void) {
  FILE *f = fopencookie(NULL, nums[1] ? "w" : "r", (cookie_io_functions_t){.read = ck_read, .write = ck_write, .close = ck_close});
  setvbuf(f, bufsize ? buf_ : NULL, bufsize < 0 ? _IOLBF : bufsize ? _IOFBF : _IONBF, bufsize < 0 ? 64 : bufsize);
  return f;
}

static int utf8(const unsigned char *p, u64 n) {
  for (u64 i = 0; i < n;) {
    unsigned c = p[i], k = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : 9;
    if (k == 9 || i + k >= n + 0 * k) { if (k) return 0; }
    if (i + k >= n) return 0;
    for (unsigned j = 1; j <= k; j++) if ((p[i + j] & 0xc0) != 0x80) return 0;
    if (k == 2 && ((c == 0xe0 && p[i + 1] < 0xa0) || (c == 0xed && p[i + 1] >= 0xa0))) return 0;
    if (k == 3 && ((c == 0xf0 && p[i + 1] < 0x90) || (c == 0xf4 && p[i + 1] >= 0x90))) return 0;
    i += k + 1;
  }
  return 1;
}

// checks the answers of one read; 0 when the source is not to be used further
static const char *SUB[] = {"read-bytes!", "read-u8!", "read-u16!", "read-u32!", "read-u64!", "read-i8!", "read-i16!", "read-i32!", "read-i64!", "read-bytes-to-end!", "read-bytes-to-end-into!", "read-string-to-end!", "read-into-buf!"};
static int check_read(int src, int sub, u64 n, u64 *lpos) {
  static const int size[] = {0, 1, 2, 4, 8, 1, 2, 4, 8};
  const char *c = content + *lpos;
  u64 rest = length - *lpos, s = sub == 0 ? n : sub < 9 ? size[sub] : 0;
  if (src == 3) eof_seen = 1;
  if (!na) { complain("%s gives no result", SUB[sub]); return 0; }
  if (A[0].kind == ERR) {
    int e = A[0].v;
    if (err_seen) {
      if (e != (src == 1 ? INTR : OTHER)) complain("%s reports error %d instead of the one that occurred", SUB[sub], e);
    } else if (e == UNEOF) {
      if (sub >= 9 || rest >= s) complain("%s reports the end of the input, with %llu bytes left", SUB[sub], (unsigned long long)rest);
    } else if (e == BADDATA) {
      if (sub != 11 || utf8((void *)c, rest)) complain("%s reports invalid data", SUB[sub]);
    } else complain("%s reports error %d although none occurred", SUB[sub], e);
    return 0;
  }
  if (err_seen) { complain("%s does not report the error", SUB[sub]); return 0; }
  if (sub == 0) {
    if (rest < n || !eq(A[0].s, B(c, n))) { complain("%s of %llu bytes gives %s", SUB[sub], (unsigned long long)n, ans(0)); return 0; }
    *lpos += n;
  } else if (sub < 9) {
    u64 v = 0;
    if (rest >= s) memcpy(&v, c, s);
    if (sub >= 5 && s < 8) v = (u64)((int64_t)(v << (64 - 8 * s)) >> (64 - 8 * s));
    if (rest < s || A[0].kind != NUM || A[0].v != v) { complain("%s gives %s instead of %llu", SUB[sub], ans(0), (unsigned long long)v); return 0; }
    *lpos += s;
  } else if (sub < 12) {
    str got = A[0].s;
    char *want = malloc(rest + 2);
    u64 k = 0;
    if (sub == 10) {
      want[0] = 7; want[1] = 9; k = 2;
      if (na != 2 || A[0].v != rest) complain("%s counts %s bytes instead of %llu", SUB[sub], ans(0), (unsigned long long)rest);
      got = A[1].s;
    }
    memcpy(want + k, c, rest);
    if (!eof_seen || !eq(got, B(want, rest + k))) complain("%s gives %s, %llu bytes were left", SUB[sub], sh(got), (unsigned long long)rest);
    if (sub == 11 && !utf8((void *)c, rest)) complain("%s accepts invalid UTF-8", SUB[sub]);
    free(want);
    *lpos = length;
  } else {
    u64 k = A[0].v;
    if (na != 2 || A[0].kind != NUM || k > n || k > rest || A[1].s.n != n || memcmp(A[1].s.p, c, k)) { complain("read-into-buf! of %llu bytes gives %s: %s", (unsigned long long)n, ans(0), ans(1)); return 0; }
    for (u64 i = k; i < n; i++) if ((unsigned char)A[1].s.p[i] != 238) complain("read-into-buf! wrote beyond the bytes it read");
    if (src == 2 && k < n && !eof_seen) complain("reading from a file stopped before the end");
    if (n && rest && !k) complain("read-into-buf! reports the end of the input early");
    *lpos += k;
  }
  if (src == 1 && pos != *lpos) { complain("%s took %llu bytes from its source and returned %llu", SUB[sub], (unsigned long long)pos, (unsigned long long)*lpos); return 0; }
  return 1;
}

static void read_sequence(int src, int n, const int (*seq)[2]) {
  restart();
  do {
    pos = calls = err_seen = eof_seen = 0;
    cases++;
    sprintf(what, "%s of %s:", src == 1 ? "source" : src == 2 ? "file" : "vector", sh(B(content, length)));
    if (src == 2) { nums[0] = 0; nums[1] = 0; go(12); }
    if (src == 3) { strs[0] = B(content, length); go(26); }
    u64 lpos = 0;
    for (int i = 0; i < n; i++) {
      sprintf(what + strlen(what), " %s %d", SUB[seq[i][0]], seq[i][1]);
      nums[0] = 0; nums[1] = seq[i][0]; nums[2] = seq[i][1];
      go(src);
      sprintf(what + strlen(what), " (sizes:");
      for (int j = 0; j < used && j < 12; j++) sprintf(what + strlen(what), " %d", tape[j]);
      strcat(what, ")");
      if (!check_read(src, seq[i][0], seq[i][1], &lpos)) { lpos = ~0ull; break; }
    }
    if (src == 2) { nums[0] = 0; go(8); }
    if (src == 3 && lpos != ~0ull) {
      go(27);
      if (!eq(A[0].s, B(content + lpos, length - lpos))) complain("the vector is left with %s", ans(0));
    }
  } while (again());
}

static void readers(void) {
  static const int ops[][2] = {{0, 0}, {0, 1}, {0, 2}, {0, 3}, {0, 5}, {1, 0}, {2, 0}, {3, 0}, {4, 0}, {9, 0}, {10, 0}, {11, 0}, {12, 0}, {12, 3}, {5, 0}, {6, 0}, {7, 0}, {8, 0}};
  int nops = sizeof ops / sizeof *ops;
  static const char *texts[] = {"abcdefghijkl", "\xff\x80\x01\xfe\x7f\x90\x85\xc3\x28", "a\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80z"};
  for (int t = 0; t < 3; t++) {
    content = texts[t];
    for (length = 0; length <= (t == 2 ? 11 : deep ? 9 : 7); length++) {
      for (int src = 1; src <= 3; src++) {
        errors = src != 3;
        for (bufsize = 0; bufsize <= (src == 2 ? 3 : 0); bufsize += 3) {
          for (int a = 0; a < nops; a++) {
            if (t == 2 && ops[a][0] != 11 && ops[a][0] != 1) continue;
            int seq[3][2] = {{ops[a][0], ops[a][1]}};
            read_sequence(src, 1, seq);
            if (length > 5 + deep) continue;
            for (int b = 0; b < 14; b++) {
              if (t == 2 && ops[b][0] != 11) continue;
              memcpy(seq[1], ops[b], sizeof *ops);
              read_sequence(src, 2, seq);
              if (!(a >= 1 && a <= 2 && (b == 1 || b == 6 || b == 2))) continue;
              for (int c = 0; c < 14; c++) { memcpy(seq[2], ops[c], sizeof *ops); read_sequence(src, 3, seq); }
            }
          }
        }
      }
    }
  }
  // around the size of the internal buffer
  char *big = malloc(20000);
  for (int i = 0; i < 20000; i++) big[i] = 'a' + i % 23 + i % 3;
  content = big;
  coarse = 1;
  static const u64 sizes[] = {4095, 4096, 4097, 8191, 8192, 8193, 12288, 20000};
  for (int i = 0; i < 8; i++)
    for (int src = 1; src <= 3; src++)
      for (int o = 9; o <= 11; o++) {
        length = sizes[i];
        errors = src != 3;
        bufsize = 4096;
        int seq[2][2] = {{o, 0}}, pre[2][2] = {{1, 0}, {o, 0}}, bulk[2][2] = {{0, 4096}, {o, 0}};
        read_sequence(src, 1, seq);
        read_sequence(src, 2, pre);
        if (length >= 4096) read_sequence(src, 2, bulk);
      }
  coarse = 0;
}

// ---- sinks ------------------------------------------------------------------------------------------------------
static const struct { int sub; const char *s; u64 v; } W[] = {{0, "", 0}, {0, "a", 0}, {0, "bcdef", 0}, {1, "", 0x81}, {2, "", 0xfffe}, {3, "", 0x80000001}, {4, "", 0x8877665544332211}, {9, "xy", 0}, {10, "\xc3\xa9", 0}, {11, "p\n", 17}, {12, "", 0}, {13, "qr", 0}, {14, "", 0}, {5, "", 0xff}, {6, "", 0x8000}, {7, "", 0x7fffffff}, {8, "", 0xffffffffffffffff}};
static u64 bytes_of(int k, char *o) {
  static const int size[] = {0, 1, 2, 4, 8, 1, 2, 4, 8};
  switch (W[k].sub) {
  case 14: return 0;
  case 11: return sprintf(o, "%s-%llu", W[k].s, (unsigned long long)W[k].v);
  case 12: return sprintf(o, "%s-%llu\n", W[k].s, (unsigned long long)W[k].v);
  case 1: case 2: case 3: case 4: case 5: case 6: case 7: case 8: memcpy(o, &W[k].v, size[W[k].sub]); return size[W[k].sub];
  default: memcpy(o, W[k].s, strlen(W[k].s)); return strlen(W[k].s);
  }
}
static void write_sequence(int file, int n, const int *seq) {
  restart();
  do {
    static char all[2000];
    u64 na_ = 0;
    int failed = 0;
    err_seen = 0;
    sunk = 0;
    wmode = file;
    cases++;
    sprintf(what, "%s (buffer %d):", file ? "file" : "vector", bufsize);
    nums[0] = 0;
    if (file) { nums[1] = 1; go(12); } else { strs[0] = S(""); go(26); }
    for (int i = 0; i < n && !failed; i++) {
      int k = seq[i], before = err_seen;
      sprintf(what + strlen(what), " write %d %s %llx", W[k].sub, sh(S(W[k].s)), (unsigned long long)W[k].v);
      nums[0] = 0; nums[1] = W[k].sub; nums[3] = W[k].v; strs[0] = S(W[k].s);
      go(file ? 4 : 5);
      na_ += bytes_of(k, all + na_);
      if (na != 1) complain("%d results", na);
      if (err_seen > before) {
        failed = 1;
        // on a line buffered stream, the C library takes what it cannot flush as written, and may drop it
        if (bufsize == -1 && W[k].sub != 14 && A[0].kind == OK) break;
        if (A[0].kind != ERR || A[0].v != PIPE) complain("a failed write gives %s", ans(0));
      } else if (A[0].kind != OK) { complain("a write gives %s", ans(0)); failed = 1; }
      if (sunk > na_ || memcmp(sink, all, sunk)) { complain("%s arrives instead of a part of %s", sh(B(sink, sunk)), sh(B(all, na_))); failed = 1; }
      if (!failed && file && (W[k].sub == 14 || bufsize == 0) && sunk != na_) complain("%s has arrived after flushing %s", sh(B(sink, sunk)), sh(B(all, na_)));
    }
    if (file) {
      nums[0] = 0;
      int before = err_seen;
      go(8);
      if (!failed) {
        if (err_seen > before ? A[0].kind != ERR || A[0].v != PIPE : A[0].kind != OK) complain("closing %s gives %s", err_seen > before ? "fails and" : "succeeds and", ans(0));
        if (!err_seen && !eq(B(sink, sunk), B(all, na_))) complain("%s has arrived after closing, instead of %s", sh(B(sink, sunk)), sh(B(all, na_)));
      }
      go(11);
      if (A[0].v != 1) complain("the file is not closed after closing it");
      go(8);
      if (A[0].kind != OK) complain("closing again gives %s", ans(0));
      nums[1] = 0; strs[0] = S("late");
      go(4);
      if (A[0].kind != ERR || A[0].v != CLOSED) complain("writing to a closed file gives %s", ans(0));
      go(7);
      if (A[0].kind != ERR || A[0].v != CLOSED) complain("flushing a closed file gives %s", ans(0));
      nums[2] = 1;
      go(28);
      if (A[0].kind != ERR || A[0].v != CLOSED) complain("reading from a closed file gives %s", ans(0));
      go(9);
      if (A[0].v != 1) complain("a closed file is not at its end");
      go(10);
      if (A[0].v != 0) complain("a closed file has an error");
    } else {
      go(27);
      if (!eq(A[0].s, B(all, na_))) complain("the vector holds %s instead of %s", ans(0), sh(B(all, na_)));
    }
  } while (again());
  wmode = 0;
}
static void writers(void) {
  int n = sizeof W / sizeof *W;
  static const int sizes[] = {0, 4, 4096, -1};
  for (int f = 0; f < 5; f++) {
    bufsize = f ? sizes[f - 1] : 0;
    for (int a = 0; a < n; a++) {
      int s[3] = {a};
      write_sequence(f > 0, 1, s);
      for (int b = 0; b < (deep ? n : 13); b++) {
        s[1] = b;
        write_sequence(f > 0, 2, s);
        for (int c = 0; c < 13; c++) if (a < 13 && (deep || (a + b + c) % 2 == 0)) { s[2] = c; write_sequence(f > 0, 3, s); }
      }
    }
  }
}

// ---- files ------------------------------------------------------------------------------------------------------
static int code(int e) {
  switch (e) {
  case EPERM: case EACCES: return DENIED;
  case ENOENT: return NOTFOUND;
  case EINTR: return INTR;
  case EEXIST: return EXISTS;
  case EINVAL: return INVAL;
  case EPIPE: return PIPE;
  default: return OTHER;
  }
}
static int rm1(const char *p, const struct stat *s, int f, struct FTW *w) { if (f == FTW_DNR) chmod(p, 0700); remove(p); return 0; }
static int open1(const char *p, const struct stat *s, int f, struct FTW *w) { if (f == FTW_D || f == FTW_DNR) chmod(p, 0700); return 0; }
static void wipe(const char *p) { // only ever called with names in the scratch directory
  if (p[0] == '/' || strstr(p, "..")) abort();
  nftw(p, open1, 20, FTW_PHYS);
  nftw(p, open1, 20, FTW_PHYS);
  nftw(p, rm1, 20, FTW_PHYS | FTW_DEPTH);
}
static void spill(const char *p, const char *s) { FILE *f = fopen(p, "w"); if (!f) abort(); fputs(s, f); fclose(f); }
static int base_;
static int compare_names(const struct dirent **a, const struct dirent **b) { return strcmp((*a)->d_name, (*b)->d_name); }
static void picture(FILE *o, const char *p, int depth) { // a full listing
  struct stat s;
  if (lstat(p, &s)) { fprintf(o, "%s missing\n", p + base_); return; }
  fprintf(o, "%s %o", p + base_, (unsigned)s.st_mode);
  char b[300];
  if (S_ISLNK(s.st_mode)) { ssize_t n = readlink(p, b, sizeof b - 1); b[n < 0 ? 0 : n] = 0; fprintf(o, " -> %s", b); }
  if (S_ISREG(s.st_mode)) { FILE *f = fopen(p, "r"); size_t n = f ? fread(b, 1, sizeof b - 1, f) : 0; b[n] = 0; fprintf(o, " %s", sh(B(b, n))); if (f) fclose(f); }
  fputc('\n', o);
  if (!S_ISDIR(s.st_mode)) return;
  int closed = (s.st_mode & 0500) != 0500;
  if (closed) chmod(p, s.st_mode | 0700);
  struct dirent **l;
  int n = scandir(p, &l, NULL, compare_names);
  for (int i = 0; i < n; i++) {
    if (strcmp(l[i]->d_name, ".") && strcmp(l[i]->d_name, "..")) { char q[4096]; snprintf(q, sizeof q, "%s/%s", p, l[i]->d_name); picture(o, q, depth + 1); }
    free(l[i]);
  }
  if (n >= 0) free(l);
  if (closed) chmod(p, s.st_mode & 07777);
}
static char *take_picture(const char *p) {
  char *r;
  size_t n;
  FILE *o = open_memstream(&r, &n);
  base_ = strlen(p);
  picture(o, p, 0);
  fclose(o);
  return r;
}
static const char *STATES[] = {"absent", "empty", "abc", "directory", "unreadable", "no parent", "unwritable parent", "read only", "link", "dangling link", "no name", "parent is a file"};
static const char *setup_file(const char *d, int st) { // the name to open, within d
  mkdir(d, 0755);
  char p[100];
  snprintf(p, sizeof p, "%s/f", d);
  char q[100];
  snprintf(q, sizeof q, "%s/g", d);
  switch (st) {
  case 1: spill(p, ""); break;
  case 2: spill(p, "abc"); break;
  case 3: mkdir(p, 0755); break;
  case 4: spill(p, "abc"); chmod(p, 0); break;
  case 5: return "no/f";
  case 6: mkdir(q, 0555); return "g/f";
  case 7: spill(p, "abc"); chmod(p, 0444); break;
  case 8: spill(q, "abc"); (void)!symlink("g", p); break;
  case 9: (void)!symlink("g", p); break;
  case 10: return "";
  case 11: spill(q, "x"); return "g/f";
  }
  return "f";
}
static void expect_unit(const char *op, int ok, int e) {
  if (na != 1 || (ok ? A[0].kind != OK : A[0].kind != ERR || (int)A[0].v != code(e))) complain("%s gives %s instead of %s", op, ans(0), ok ? "ok" : strerror(e));
}
static void file_case(int st, const char *mode, int n, const int *seq) {
  static const char *names[] = {"read 2", "read 9", "write xy", "write 10", "flush", "eof?", "error?", "closed?", "close", "read 0"};
  // what C leaves undefined: a read directly after a write, a write directly after a read
  int last = 0;
  for (int i = 0; i < n; i++) {
    int o = seq[i];
    if (o < 2 || o == 9) { if (last == 2) return; last = 1; }
    else if (o < 4) { if (last == 1) return; last = 2; }
    else if (o == 4) { if (last == 1) return; last = 0; }
    else if (o == 8 && i + 2 < n) return; // one operation on a closed file is enough
  }
  cases++;
  const char *name = setup_file("a", st);
  setup_file("b", st);
  char pa[100], pb[100];
  snprintf(pa, sizeof pa, *name ? "a/%s" : "%s%s", name, "");
  snprintf(pb, sizeof pb, *name ? "b/%s" : "%s%s", name, "");
  sprintf(what, "file (%s) opened with %s:", STATES[st], sh(S(mode)));
  nums[0] = 0; strs[0] = S(pa); strs[1] = S(mode);
  go(6);
  errno = 0;
  FILE *f = fopen(pb, mode);
  expect_unit("opening", f != NULL, errno);
  if (f && na == 1 && A[0].kind == OK) {
    for (int i = 0; i < n; i++) {
      int o = seq[i];
      char b[20];
      sprintf(what + strlen(what), " %s,", names[o]);
      if (o < 2 || o == 9) {
        u64 m = o == 0 ? 2 : o == 1 ? 9 : 0;
        nums[0] = 0; nums[2] = m;
        go(28);
        errno = 0;
        u64 k = f ? fread(b, 1, m, f) : 0;
        int e = f ? errno : 0;
        if (!f) { if (A[0].kind != ERR || A[0].v != CLOSED) complain("reading a closed file gives %s", ans(0)); }
        else if (k == m || feof(f)) { if (na != 2 || A[0].kind != NUM || A[0].v != k || A[1].s.n != m || memcmp(A[1].s.p, b, k)) complain("gives %s %s instead of %s", ans(0), ans(1), sh(B(b, k))); }
        else expect_unit("reading", 0, e);
      } else if (o < 4) {
        strs[0] = S(o == 2 ? "xy" : "0123456789");
        nums[0] = 0;
        go(29);
        errno = 0;
        u64 k = f ? fwrite(strs[0].p, 1, strs[0].n, f) : 0;
        int e = errno;
        if (!f) { if (A[0].kind != ERR || A[0].v != CLOSED) complain("writing a closed file gives %s", ans(0)); }
        else expect_unit("writing", k == strs[0].n, e);
      } else if (o == 4) {
        go(7);
        errno = 0;
        int r = f ? fflush(f) : 0, e = errno;
        if (!f) { if (A[0].kind != ERR || A[0].v != CLOSED) complain("flushing a closed file gives %s", ans(0)); }
        else expect_unit("flushing", !r, e);
      } else if (o < 8) {
        go(o + 4);
        u64 v = o == 5 ? !f || feof(f) : o == 6 ? f && ferror(f) : !f;
        if (A[0].kind != NUM || A[0].v != v) complain("gives %s instead of %d", ans(0), (int)v);
      } else {
        go(8);
        errno = 0;
        int r = f ? fclose(f) : 0, e = errno;
        f = NULL;
        expect_unit("closing", !r, e);
      }
    }
    sprintf(what + strlen(what), " at the end");
    go(8);
    errno = 0;
    int r = f ? fclose(f) : 0, e = errno;
    f = NULL;
    expect_unit("closing", !r, e);
  }
  if (f) fclose(f);
  char *x = take_picture("a"), *y = take_picture("b");
  if (strcmp(x, y)) complain("leaves\n%sinstead of\n%s", x, y);
  free(x);
  free(y);
  wipe("a");
  wipe("b");
}
static void with_file_case(const char *pa, const char *pb, const char *mode, const char *data) {
  cases++;
  sprintf(what, "with-file! %s %s writing %s", pa, mode, sh(S(data)));
  strs[0] = S(pa); strs[1] = S(mode); strs[2] = S(data);
  go(23);
  errno = 0;
  FILE *f = fopen(pb, mode);
  int e = errno, ok = f != NULL;
  if (f) {
    if (fwrite(data, 1, strlen(data), f) != strlen(data)) { ok = 0; e = errno; }
    errno = 0;
    if (fclose(f) && ok) { ok = 0; e = errno; }
  }
  expect_unit("it", ok, e);
}
static void files(void) {
  static const char *modes[] = {"r", "w", "a", "r+", "w+", "a+", "rb", "wb", "ab", "r+b", "rb+", "w+b", "a+b", "wx", "w+x", "ax", "", "q"};
  for (int st = 0; st < 12; st++)
    for (int m = 0; m < 18; m++) {
      int s[4];
      file_case(st, modes[m], 0, s);
      if (st >= 4 && st != 7 && st != 8 && !(deep && st == 9)) continue;
      int plain = m < 6 || m == 9 || m == 13;
      for (s[0] = 0; s[0] < 10; s[0]++) {
        file_case(st, modes[m], 1, s);
        for (s[1] = 0; s[1] < 10; s[1]++) {
          file_case(st, modes[m], 2, s);
          if (m < 6 && (deep || st == 2 || st == 0 || st == 3)) for (s[2] = 0; s[2] < 10; s[2]++) {
            file_case(st, modes[m], 3, s);
            if (st == 2 && (m >= 3 || deep)) for (s[3] = 0; s[3] < 10; s[3]++) file_case(st, modes[m], 4, s);
          }
        }
      }
      (void)plain;
    }
  for (int st = 0; st < 12; st++)
    for (int m = 0; m < 18; m++)
      for (int k = 0; k < 2; k++) {
        const char *n = setup_file("a", st);
        setup_file("b", st);
        char pa[100], pb[100];
        snprintf(pa, sizeof pa, *n ? "a/%s" : "%s%s", n, "");
        snprintf(pb, sizeof pb, *n ? "b/%s" : "%s%s", n, "");
        with_file_case(pa, pb, modes[m], k ? "hello" : "");
        char *x = take_picture("a"), *y = take_picture("b");
        if (strcmp(x, y)) complain("leaves\n%sinstead of\n%s", x, y);
        free(x);
        free(y);
        wipe("a");
        wipe("b");
      }
  with_file_case("/dev/full", "/dev/full", "w", "x");
  with_file_case("/dev/full", "/dev/full", "w", "");
  with_file_case("/dev/null", "/dev/null", "w", "x");
}

// ---- paths ------------------------------------------------------------------------------------------------------
typedef struct { int abs, n; str c[64]; } comps; // c: names, "." and ".."
static comps split(str p) {
  comps r = {p.n && p.p[0] == '/', 0, {}};
  for (u64 i = 0; i < p.n;) {
    u64 j = i;
    while (j < p.n && p.p[j] != '/') j++;
    if (j > i) r.c[r.n++] = B(p.p + i, j - i);
    i = j + 1;
  }
  return r;
}
static int same_comps(comps a, comps b) {
  if (a.abs != b.abs || a.n != b.n) return 0;
  for (int i = 0; i < a.n; i++) if (!eq(a.c[i], b.c[i])) return 0;
  return 1;
}
static int dots(str s) { return eq(s, S(".")) ? 1 : eq(s, S("..")) ? 2 : 0; }
static void joined(str want[], int k) {
  comps w = split(want[0]);
  for (int i = 1; i < k; i++) {
    comps q = split(want[i]);
    if (q.abs) w = q;
    else for (int j = 0; j < q.n; j++) w.c[w.n++] = q.c[j];
  }
  if (na != 1 || A[0].kind != BYTES || !same_comps(split(A[0].s), w)) complain("gives %s", ans(0));
}
static void canonical(str a, str b) {
  char cwd[4096];
  if (!getcwd(cwd, sizeof cwd)) abort();
  str parts[3] = {S(cwd), a, b};
  str st[200];
  int n = 0;
  for (int i = 0; i < 3; i++) {
    comps c = split(parts[i]);
    if (c.abs) n = 0;
    for (int j = 0; j < c.n; j++) {
      int d = dots(c.c[j]);
      if (d == 2) n -= n > 0;
      else if (!d) st[n++] = c.c[j];
    }
  }
  char out[8192], *e = out;
  for (int i = 0; i < n; i++) { *e++ = '/'; memcpy(e, st[i].p, st[i].n); e += st[i].n; }
  if (!n) *e++ = '/';
  if (na != 1 || A[0].kind != BYTES || !eq(A[0].s, B(out, e - out))) complain("gives %s instead of %s", ans(0), sh(B(out, e - out)));
}
static void path_case(str p) {
  comps c = split(p);
  str last = c.n ? c.c[c.n - 1] : S("");
  cases++;
  strs[0] = p;
#define RUN(o, name) (nums[1] = o, sprintf(what, "%s %s", name, sh(p)), go(13))
  RUN(0, "path/base-name");
  str want = !p.n ? S("") : c.n ? last : S("/");
  if (na != 1 || !eq(A[0].s, want)) complain("gives %s instead of %s", ans(0), sh(want));
  RUN(1, "path/dir-name");
  comps d = c;
  if (d.n) d.n--;
  comps got = split(na == 1 ? A[0].s : S(""));
  if (!d.abs && !d.n) { if (na != 1 || !eq(A[0].s, S("."))) complain("gives %s", ans(0)); }
  else if (!same_comps(got, d)) complain("gives %s", ans(0));
  // extension: after the last dot of a name that does not begin with it
  u64 dot = 0;
  for (u64 i = 1; i < last.n; i++) if (last.p[i] == '.') dot = i;
  if (dots(last)) dot = 0;
  RUN(2, "path/extension?");
  if (dot ? na != 1 || A[0].kind != BYTES || !eq(A[0].s, B(last.p + dot + 1, last.n - dot - 1)) : na != 1 || A[0].kind != NONE) complain("gives %s", ans(0));
  if (last.n && !dots(last)) {
    u64 start = last.p - p.p, end = start + last.n, cut = dot ? start + dot : end;
    char o[600];
    sprintf(o, "%.*s%.*s", (int)cut, p.p, (int)(p.n - end), p.p + end);
    RUN(3, "path/with-extension none");
    if (na != 1 || !eq(A[0].s, S(o))) complain("gives %s instead of %s", ans(0), sh(S(o)));
    static const char *exts[] = {"x", "", "y.z"};
    for (int i = 0; i < 3; i++) {
      strs[1] = S(exts[i]);
      sprintf(o, "%.*s.%s%.*s", (int)cut, p.p, exts[i], (int)(p.n - end), p.p + end);
      RUN(4, "path/with-extension x");
      if (na != 1 || !eq(A[0].s, S(o))) complain("gives %s instead of %s", ans(0), sh(S(o)));
      RUN(5, "path/default-extension x");
      str w = dot ? p : S(o);
      if (na != 1 || !eq(A[0].s, w)) complain("gives %s instead of %s", ans(0), sh(w));
    }
  }
  RUN(6, "path/absolute?");
  if (na != 2 || (int)A[0].v != c.abs || (int)A[1].v == c.abs) complain("gives %s, path/relative? %s", ans(0), ans(1));
  RUN(7, "path/components");
  int k = 0, good = na == c.n + c.abs + 1;
  if (good && c.abs) good = A[k].kind == COMP && A[k].v == 0, k++;
  for (int i = 0; good && i < c.n; i++, k++) {
    int dd = dots(c.c[i]);
    good = dd ? A[k].kind == COMP && (int)A[k].v == dd : A[k].kind == NAME && eq(A[k].s, c.c[i]);
  }
  if (!good) complain("gives %d components, %s %s %s", na - 1, ans(0), ans(1), ans(2));
  RUN(9, "path/canonicalize");
  canonical(p, S(""));
}
static int gen(char *o, u64 k, int max) { // the k-th text over a . /
  static const char abc[] = "a./";
  for (int n = 0; n <= max; n++) {
    u64 m = 1;
    for (int i = 0; i < n; i++) m *= 3;
    if (k < m) { for (int i = 0; i < n; i++, k /= 3) o[i] = abc[k % 3]; o[n] = 0; return 1; }
    k -= m;
  }
  return 0;
}
static void paths(void) {
  char a[20], b[20], c[20];
  mkdir("p", 0755);
  mkdir("p/q.r", 0755);
  for (int where = 0; where < 3; where++) {
    if (where == 1 && chdir("p/q.r")) abort();
    if (where == 2 && chdir("/")) abort();
    nums[1] = 11;
    sprintf(what, "path/cwd");
    char cwd[4096];
    if (!getcwd(cwd, sizeof cwd)) abort();
    go(13);
    if (na != 1 || !eq(A[0].s, S(cwd))) complain("gives %s instead of %s", ans(0), sh(S(cwd)));
    for (u64 k = 0; gen(a, k, where ? 4 : deep ? 9 : 7); k++) path_case(S(a));
    static const char *more[] = {"foo.tar.gz", "/usr/lib/x.so", "\xc3\xa9.\xe2\x82\xac", "a b/c d.e f", "...", "....", "/...", "a...", ".a.", "~/x", "a\\b.c", "-", "x/..y", "x/.y", "..x/..", "aa/bb//cc/dd.ee/ff"};
    for (int i = 0; i < 16; i++) path_case(S(more[i]));
    for (u64 i = 0; gen(a, i, deep ? 5 : 4); i++)
      for (u64 j = 0; gen(b, j, deep ? 5 : where ? 3 : 4); j++) {
        cases++;
        strs[0] = S(a); strs[1] = S(b);
        sprintf(what, "(path %s %s)", sh(S(a)), sh(S(b)));
        nums[1] = 8;
        go(13);
        joined(strs, 2);
        sprintf(what, "(canonicalized-path %s %s)", sh(S(a)), sh(S(b)));
        nums[1] = 10;
        go(13);
        canonical(strs[0], strs[1]);
        if (strlen(a) > 2 || strlen(b) > 2 || where) continue;
        for (u64 k = 0; gen(c, k, 2); k++) {
          strs[2] = S(c);
          sprintf(what, "(path %s %s %s)", sh(S(a)), sh(S(b)), sh(S(c)));
          nums[1] = 12;
          go(13);
          joined(strs, 3);
        }
      }
  }
}

// ---- directories ------------------------------------------------------------------------------------------------
static int fail_at = -1;
struct dirent *readdir(DIR *d) {
  static struct dirent *(*real)(DIR *);
  if (!real) real = dlsym(RTLD_NEXT, "readdir");
  if (fail_at >= 0 && fail_at-- == 0) { errno = EIO; return NULL; }
  return real(d);
}
static const char *KINDS[] = {"file", "empty directory", "directory", "deep directory", "link to a directory", "link to a file", "dangling link", "hidden file", "long name", "link to itself", "unwritable directory", "unreadable directory"};
static void put_entry(const char *d, int k, int i) {
  char p[900], q[1000];
  snprintf(p, sizeof p, "%s/e%d", d, i);
  switch (k) {
  case 0: spill(p, "x"); break;
  case 1: mkdir(p, 0755); break;
  case 2: mkdir(p, 0755); snprintf(q, sizeof q, "%s/z", p); spill(q, "z"); break;
  case 3: mkdir(p, 0755); snprintf(q, sizeof q, "%s/y", p); mkdir(q, 0755); snprintf(q, sizeof q, "%s/y/x", p); mkdir(q, 0755); snprintf(q, sizeof q, "%s/y/w w", p); spill(q, "w"); snprintf(q, sizeof q, "%s/y/x/up", p); (void)!symlink("../..", q); break;
  case 4: (void)!symlink("../keep", p); break;
  case 5: (void)!symlink("../keep/k", p); break;
  case 6: (void)!symlink("nowhere", p); break;
  case 7: snprintf(p, sizeof p, "%s/.e%d", d, i); spill(p, "h"); break;
  case 8: snprintf(p, sizeof p, "%s/%d%0200d\xc3\xa9", d, i, 7); spill(p, "l"); break;
  case 9: snprintf(q, sizeof q, "e%d", i); (void)!symlink(q, p); break;
  case 10: mkdir(p, 0755); snprintf(q, sizeof q, "%s/z", p); spill(q, "z"); chmod(p, 0555); break;
  case 11: mkdir(p, 0755); snprintf(q, sizeof q, "%s/z", p); spill(q, "z"); chmod(p, 0); break;
  }
}
static void tree(const char *root, int n, const int *k) {
  char p[100];
  mkdir(root, 0755);
  snprintf(p, sizeof p, "%s/keep", root);
  mkdir(p, 0755);
  snprintf(p, sizeof p, "%s/keep/k", root);
  spill(p, "keep");
  snprintf(p, sizeof p, "%s/t", root);
  mkdir(p, 0755);
  for (int i = 0; i < n; i++) put_entry(p, k[i], i);
}
static void same_trees(void) {
  char *x = take_picture("a"), *y = take_picture("b");
  if (strcmp(x, y)) complain("leaves\n%sinstead of\n%s", x, y);
  free(x);
  free(y);
}
static int by_text(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }
static void listing(int n, const int *k) {
  // every entry once, then the end, again and again; an error is told apart from the end
  char *want[20], *got[40];
  int w = 0;
  DIR *d = opendir("a/t");
  for (struct dirent *e; (e = readdir(d));) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) want[w++] = strdup(e->d_name);
  closedir(d);
  qsort(want, w, sizeof *want, by_text);
  for (int fault = -1; fault < w + 3; fault++) {
    char base[300];
    strcpy(base, what);
    sprintf(what + strlen(what), ": listing it, %s %d", fault < 0 ? "no fault" : "fault at read", fault);
    cases++;
    nums[0] = 0; strs[0] = S("a/t");
    go(14);
    if (A[0].kind != OK) complain("opening gives %s", ans(0));
    else {
      go(17);
      if (A[0].v != 0) complain("it is closed");
      int g = 0, failed = 0;
      fail_at = fault;
      for (int i = 0; i < 30; i++) {
        int before = fail_at;
        go(15);
        if (before >= 0 && fail_at < 0) {
          if (A[0].kind != ERR || A[0].v != OTHER) complain("a failed read gives %s", ans(0));
          failed = 1;
          break;
        }
        if (A[0].kind != BYTES) { if (A[0].kind != NONE) complain("reading gives %s", ans(0)); break; }
        got[g++] = strdup(A[0].s.p);
      }
      fail_at = -1;
      qsort(got, g, sizeof *got, by_text);
      int wrong = failed ? g > w : g != w;
      for (int i = 0, j = 0; !wrong && i < g; i++, j++) {
        while (failed && j < w && strcmp(got[i], want[j])) j++;
        wrong = j >= w || strcmp(got[i], want[j]);
      }
      if (wrong) complain("%d entries of %d are read", g, w);
      for (int i = 0; i < g; i++) free(got[i]);
      if (!failed) { go(15); if (A[0].kind != NONE) complain("after the end comes %s", ans(0)); }
      go(16);
      if (A[0].kind != OK) complain("closing gives %s", ans(0));
      go(17);
      if (A[0].v != 1) complain("it is not closed after closing");
      go(16);
      if (A[0].kind != OK) complain("closing again gives %s", ans(0));
      go(15);
      if (A[0].kind != ERR || A[0].v != CLOSED) complain("reading when closed gives %s", ans(0));
    }
    strcpy(what, base);
  }
  strs[0] = S("a/t");
  go(22);
  int wrong = na != w + 1 || A[w].kind != OK;
  for (int i = 0; i + 1 < na; i++) got[i] = A[i].s.p;
  if (!wrong) qsort(got, w, sizeof *got, by_text);
  for (int i = 0; !wrong && i < w; i++) wrong = strcmp(got[i], want[i]);
  if (wrong) complain("with-directory! gives %d entries instead of %d", na - 1, w);
  for (int i = 0; i < w; i++) free(want[i]);
}
static int rm_plain(const char *p, const struct stat *s, int f, struct FTW *w) { return remove(p); }
static void removing(int n, const int *k, int op, const char *rel) {
  static const char *name[] = {"directory/create!", "directory/remove!", "remove!", "remove-all!"};
  char pa[600], pb[600], base[300];
  strcpy(base, what);
  cases++;
  tree("a", n, k);
  tree("b", n, k);
  snprintf(pa, sizeof pa, *rel ? "a/%s" : "%s%s", rel, "");
  snprintf(pb, sizeof pb, *rel ? "b/%s" : "%s%s", rel, "");
  sprintf(what + strlen(what), ": %s %s", name[op - 18], rel);
  strs[0] = S(pa);
  go(op);
  errno = 0;
  if (op < 21) {
    int r = op == 18 ? mkdir(pb, 0777) : op == 19 ? rmdir(pb) : remove(pb);
    expect_unit("it", r == 0, errno);
    same_trees();
  } else {
    struct stat s;
    int r = lstat(pb, &s);
    if (!r && S_ISDIR(s.st_mode)) r = nftw(pb, rm_plain, 20, FTW_PHYS | FTW_DEPTH);
    else r = remove(pb);
    if (r == 0) { expect_unit("it", 1, 0); same_trees(); }
    else {
      // how much is left is not determined, but what is outside has to be, and the failure has to be told
      if (na != 1 || A[0].kind != ERR) complain("gives %s", ans(0));
      if (access("a/keep/k", F_OK)) complain("removes what is outside");
      if (!lstat(pb, &s) && lstat(pa, &s)) complain("removes what cannot be removed");
    }
  }
  strcpy(what, base);
  wipe("a");
  wipe("b");
}
static void dirs(void) {
  int k[3], kinds = 12;
  for (int n = 0; n <= (deep ? 3 : 2); n++)
    for (k[0] = 0; k[0] < (n > 0 ? kinds : 1); k[0]++)
      for (k[1] = n > 1 ? k[0] : 0; k[1] < (n > 1 ? kinds : 1); k[1]++)
        for (k[2] = n > 2 ? k[1] : 0; k[2] < (n > 2 ? kinds : 1); k[2]++) {
          sprintf(what, "directory of");
          for (int i = 0; i < n; i++) sprintf(what + strlen(what), " %s", KINDS[k[i]]);
          tree("a", n, k);
          listing(n, k);
          wipe("a");
          removing(n, k, 21, "t");
          removing(n, k, 20, "t");
          removing(n, k, 19, "t");
          removing(n, k, 18, "t");
          for (int i = 0; i < n && n < 3; i++) {
            char e[400];
            if (k[i] == 8) snprintf(e, sizeof e, "t/%d%0200d\xc3\xa9", i, 7);
            else snprintf(e, sizeof e, k[i] == 7 ? "t/.e%d" : "t/e%d", i);
            for (int op = 18; op <= 21; op++) removing(n, k, op, e);
            strcat(e, "/new");
            for (int op = 18; op <= 21; op++) removing(n, k, op, e);
          }
        }
  k[0] = 3;
  static const char *odd[] = {"t/none", "no/none", "", "t/", "t/./e0", "t/../keep", "keep/k", "t/e0/", "t/e0/y/../y"};
  for (int i = 0; i < 9; i++) for (int op = 18; op <= 21; op++) { sprintf(what, "deep directory"); removing(1, k, op, odd[i]); }
  // what cannot be opened
  tree("a", 1, k);
  mkdir("a/closed", 0);
  spill("a/file", "");
  static const char *names[] = {"a/none", "a/file", "a/closed", "", "a/file/x", "a/t/e0"};
  for (int i = 0; i < 6; i++) {
    cases++;
    nums[0] = 1; strs[0] = S(names[i]);
    sprintf(what, "opening %s", names[i]);
    go(14);
    errno = 0;
    DIR *d = opendir(names[i]);
    expect_unit("it", d != NULL, errno);
    if (d) { closedir(d); go(16); }
    strs[0] = S(names[i]);
    go(22);
    errno = 0;
    d = opendir(names[i]);
    if (d ? A[na - 1].kind != OK : A[0].kind != ERR || (int)A[0].v != code(errno)) complain("with-directory! gives %s", ans(0));
    if (d) closedir(d);
  }
  wipe("a");
}

// ---- processes --------------------------------------------------------------------------------------------------
static int open_files(void) {
  int n = 0;
  DIR *d = opendir("/proc/self/fd");
  while (d && readdir(d)) n++;
  if (d) closedir(d);
  return n;
}
static void processes(void) {
  const char *helper = getenv("P24_HELPER");
  char big[5001], *input = malloc(200001);
  memset(big, 'b', 5000);
  big[5000] = 0;
  for (int i = 0; i < 200000; i++) input[i] = i * 7 + i / 256;
  const char *args[] = {"", "a b", "\xc3\xa9\"$x'", big, "-"};
  static const int sizes[] = {0, 1, 10, 4096, 65537, 200000};
  static const char *outcome[] = {"0", "1", "7", "255", "s9", "s15", "s6"};
  spill("plain", "not executable");
  for (int n = 0; n <= 2; n++)
    for (int a = 0; a < (n > 0 ? 5 : 1); a++)
      for (int b = 0; b < (n > 1 ? 5 : 1); b++)
        for (int o = 0; o < 7; o++)
          for (int s = 0; s < 6; s++) {
            if (s > 2 && (a || b || o > 1) && !deep) continue;
            cases++;
            sprintf(what, "process ending with %s, arguments %s %s, input of %d bytes", outcome[o], n > 0 ? sh(S(args[a])) : "", n > 1 ? sh(S(args[b])) : "", sizes[s]);
            int before = open_files();
            strs[0] = S(helper); strs[1] = S(outcome[o]); strs[2] = S(args[a]); strs[3] = S(args[b]); strs[7] = B(input, sizes[s]);
            nums[2] = n + 1;
            go(24);
            char want[12000], *e = want;
            for (int i = 0; i < n; i++) { const char *x = i ? args[b] : args[a]; e += sprintf(e, "%s", x) + 1; }
            if (na != 7 || A[0].kind != OK) { complain("gives %d results, first %s", na, ans(0)); continue; }
            if (A[1].kind != OK || A[2].kind != OK) complain("writing to it gives %s, closing %s", ans(1), ans(2));
            if (A[3].kind != BYTES || !eq(A[3].s, B(want, e - want))) complain("it gets the arguments %s instead of %s", ans(3), sh(B(want, e - want)));
            if (A[4].kind != BYTES || !eq(A[4].s, B(input, sizes[s]))) complain("it gets the input %s", ans(4));
            if (outcome[o][0] == 's' ? A[5].kind != NONE : A[5].kind != NUM || A[5].v != strtoull(outcome[o], 0, 10)) complain("its status is %s", ans(5));
            if (A[6].kind != OK) complain("closing it gives %s", ans(6));
            if (open_files() != before) complain("%d files are left open", open_files() - before);
          }
  const char *wrong[] = {"./none", "./plain", ".", "none-such-command", ""};
  static const int errs[] = {ENOENT, EACCES, EACCES, ENOENT, ENOENT};
  for (int i = 0; i < 5; i++)
    for (int op = 24; op <= 25; op++)
      for (int k = 0; k < 2; k++) {
        cases++;
        sprintf(what, "%s %s%s", op == 24 ? "process/spawn!" : "process/execute!", sh(S(wrong[i])), k ? " after printing" : "");
        int before = open_files(), keep = dup(1), f = open("out", O_CREAT | O_TRUNC | O_RDWR, 0600);
        dup2(f, 1);
        if (k) { strs[0] = S("once"); go(30); }
        strs[0] = S(wrong[i]); strs[1] = S("x");
        nums[2] = 1;
        go(op);
        if (na != 1 || A[0].kind != ERR || (int)A[0].v != code(errs[i])) complain("gives %s", ans(0));
        while (waitpid(-1, NULL, 0) > 0) {}
        go(31);
        dup2(keep, 1);
        close(keep);
        char b[100];
        ssize_t n = pread(f, b, sizeof b, 0);
        close(f);
        if (!eq(B(b, n < 0 ? 0 : n), S(k ? "once" : ""))) complain("%s is printed", sh(B(b, n < 0 ? 0 : n)));
        if (open_files() != before) complain("%d files are left open", open_files() - before);
      }
  for (int n = 0; n <= 2; n++)
    for (int a = 0; a < (n > 0 ? 5 : 1); a++)
      for (int o = 0; o < 7; o++) {
        cases++;
        sprintf(what, "process/execute! ending with %s, %d arguments %s", outcome[o], n, n ? sh(S(args[a])) : "");
        int before = open_files(), keep = dup(1), keep0 = dup(0), keep2 = dup(2), f = open("out", O_CREAT | O_TRUNC | O_RDWR, 0600), g = open("in", O_CREAT | O_TRUNC | O_RDWR, 0600), h = open("err", O_CREAT | O_TRUNC | O_RDWR, 0600);
        if (write(g, "input", 5) != 5) abort();
        lseek(g, 0, SEEK_SET);
        dup2(f, 1);
        dup2(g, 0);
        dup2(h, 2);
        strs[0] = S("first ");
        go(30);
        go(31);
        strs[0] = S(helper); strs[1] = S(outcome[o]); strs[2] = strs[3] = S(args[a]);
        nums[2] = n + 1;
        go(25);
        int r = na == 1 && (outcome[o][0] == 's' ? A[0].kind == NONE : A[0].kind == NUM && A[0].v == strtoull(outcome[o], 0, 10));
        dup2(keep, 1);
        dup2(keep0, 0);
        dup2(keep2, 2);
        close(keep);
        close(keep0);
        close(keep2);
        if (!r) complain("gives %s", ans(0));
        char want[12000], *e = want, b[12000];
        e += sprintf(e, "first ");
        for (int i = 0; i < n; i++) e += sprintf(e, "%s", args[a]) + 1;
        ssize_t m = pread(f, b, sizeof b, 0);
        if (!eq(B(b, m), B(want, e - want))) complain("%s is printed instead of %s", sh(B(b, m)), sh(B(want, e - want)));
        m = pread(h, b, sizeof b, 0);
        if (!eq(B(b, m), S("input"))) complain("it gets the input %s", sh(B(b, m)));
        close(f);
        close(g);
        close(h);
        if (open_files() != before) complain("%d files are left open", open_files() - before);
      }
}

static void enumerate(void) {
  log_ = fopen(getenv("P24_OUT"), "w");
  if (!log_) abort();
  deep = getenv("P24_DEEP") != NULL;
  const char *m = getenv("P24_MODE");
  if (!strcmp(m, "readers")) readers();
  else if (!strcmp(m, "writers")) writers();
  else if (!strcmp(m, "files")) files();
  else if (!strcmp(m, "paths")) paths();
  else if (!strcmp(m, "directories")) dirs();
  else if (!strcmp(m, "processes")) processes();
  fprintf(log_, "D %llu %llu %llu\n", (unsigned long long)cases, (unsigned long long)steps, (unsigned long long)bad);
  fclose(log_);
  op_ = 0;
}
