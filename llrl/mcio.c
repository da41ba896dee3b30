// Command stream of the op-interpreter harnesses: words come from the mapped file $MC_IN, results go to the mapped
// file $MC_OUT (header: input position, output position, done flag), so that nothing is lost when the code under
// test crashes or is killed.
#define _GNU_SOURCE
#include <fcntl.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

static uint64_t *in, *out;
static size_t nin, nout;
static uint64_t trace_h, trace_on;

static void *map(const char *var, int w, size_t *len) {
  const char *p = getenv(var);
  if (!p) { fprintf(stderr, "mcio: no %s\n", var); _exit(97); }
  int fd = open(p, w ? O_RDWR : O_RDONLY);
  struct stat st;
  if (fd < 0 || fstat(fd, &st) < 0) { fprintf(stderr, "mcio: cannot open %s\n", p); _exit(97); }
  void *m = mmap(NULL, st.st_size ? st.st_size : 8, w ? PROT_READ | PROT_WRITE : PROT_READ, MAP_SHARED, fd, 0);
  if (m == MAP_FAILED) { fprintf(stderr, "mcio: cannot map %s\n", p); _exit(97); }
  close(fd);
  *len = st.st_size / 8;
  return m;
}

static void mc_init(void) {
  if (out) return;
  in = map("MC_IN", 0, &nin);
  out = map("MC_OUT", 1, &nout);
}

#define MARK 0x4d41524b4d41524bull
uint64_t mc_out(uint64_t v);
uint64_t mc_next(void) {
  mc_init();
  while (out[0] < nin && in[out[0]] == MARK) { out[0]++; mc_out(MARK); } // end of a case
  if (out[0] >= nin) return 0; // 0 = end of stream
  return in[out[0]++];
}

uint64_t mc_out(uint64_t v) {
  mc_init();
  if (out[1] + 3 >= nout) { fprintf(stderr, "mcio: output overflow\n"); _exit(98); }
  out[3 + out[1]++] = v;
  return v;
}

uint64_t mc_done(void) { out[2] = 1; return 0; }

// comparison traces: a digest of the pairs compared while tracing is on (a fingerprint of a search structure)
static uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
  return h;
}
uint64_t mc_trace_begin(void) { trace_on = 1; trace_h = 1; return 0; }
uint64_t mc_trace_end(void) { trace_on = 0; return trace_h; }
uint64_t mc_trace(uint64_t a) { if (trace_on) trace_h = mix(trace_h, a); return 0; }
// three-way comparison of traced keys; the digest uses ranks relative to the sorted table given by mc_ranks
static uint64_t *rank_tab, rank_n;
uint64_t mc_ranks(uint64_t n) {
  rank_tab = &in[out[0]]; rank_n = n; out[0] += n;
  return 0;
}
static uint64_t rank(uint64_t k) {
  uint64_t lo = 0, hi = rank_n;
  while (lo < hi) { uint64_t m = (lo + hi) / 2; if (rank_tab[m] < k) lo = m + 1; else hi = m; }
  return 2 * lo + (lo < rank_n && rank_tab[lo] == k);
}
uint64_t mc_cmp(uint64_t a, uint64_t b) {
  if (trace_on) trace_h = mix(mix(trace_h, rank(a)), rank(b));
  return a < b ? 0 : a == b ? 1 : 2;
}

// byte blobs: strings travel as (length, ceil(length/8) words)
uint64_t mc_blob_in(uint8_t *p, uint64_t n) {
  uint64_t w = (n + 7) / 8;
  memcpy(p, &in[out[0]], n);
  out[0] += w;
  return 0;
}
uint64_t mc_blob_out(uint8_t *p, uint64_t n) {
  uint64_t w = (n + 7) / 8;
  if (out[1] + w + 4 >= nout) { fprintf(stderr, "mcio: output overflow\n"); _exit(98); }
  out[3 + out[1]++] = n;
  if (w) { out[3 + out[1] + w - 1] = 0; memcpy(&out[3 + out[1]], p, n); }
  out[1] += w;
  return 0;
}
