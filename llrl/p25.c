// Where the programs of P25 write what they find, while compiling and while running.
#define _GNU_SOURCE
#include <fcntl.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
typedef struct { unsigned char *p; uint64_t n; } str;
static char *buf;
static size_t len, cap;
static void need(size_t n) { if (len + n > cap) buf = realloc(buf, cap = 2 * (len + n)); }
uint64_t p25_str(str s, uint32_t tag) {
  need(2 * s.n + 3);
  buf[len++] = tag;
  for (uint64_t i = 0; i < s.n; i++) len += sprintf(buf + len, "%02x", s.p[i]);
  buf[len++] = ' ';
  return 0;
}
uint64_t p25_num(uint64_t v, uint32_t tag) {
  need(24);
  len += sprintf(buf + len, "%c%llx ", (int)tag, (unsigned long long)v);
  return 0;
}
uint64_t p25_f64(double d) {
  uint64_t v;
  memcpy(&v, &d, 8);
  return p25_num(v, 'f');
}
uint64_t p25_end(uint64_t k) {
  char t[32];
  int n = sprintf(t, "%llu: ", (unsigned long long)k);
  int fd = open(getenv("P25_OUT"), O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (fd < 0) abort();
  need(n + 2);
  memmove(buf + n, buf, len);
  memcpy(buf, t, n);
  buf[len + n] = '\n';
  if (write(fd, buf, len + n + 1) < 0) abort();
  close(fd);
  len = 0;
  return 0;
}
// generated symbols have to differ from all earlier ones; returns how often that failed
static char **seen;
static size_t nseen, room;
static uint64_t hash(str s) { uint64_t h = 1469598103934665603u; for (uint64_t i = 0; i < s.n; i++) h = (h ^ s.p[i]) * 1099511628211u; return h ^ h >> 29; }
uint64_t p25_fresh(str s) {
  if (2 * nseen >= room) {
    size_t r = room ? 2 * room : 1024;
    char **t = calloc(r, sizeof *t);
    for (size_t i = 0; i < room; i++) if (seen[i]) { str q = {(unsigned char *)seen[i], strlen(seen[i])}; size_t k = hash(q) % r; while (t[k]) k = (k + 1) % r; t[k] = seen[i]; }
    free(seen); seen = t; room = r;
  }
  if (!s.n || memchr(s.p, 0, s.n)) return 1;
  size_t k = hash(s) % room;
  for (; seen[k]; k = (k + 1) % room) if (strlen(seen[k]) == s.n && !memcmp(seen[k], s.p, s.n)) return 1;
  seen[k] = strndup((char *)s.p, s.n);
  nseen++;
  return 0;
}
uint64_t p25_ptr(void *p) { return p != 0; }
