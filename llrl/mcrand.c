// The same hash keys in every run: iteration orders of hash maps are chosen by MC_HASH, not at random.
#include <stdlib.h>
#include <sys/types.h>
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
  const char *s = getenv("MC_HASH");
  unsigned char k = s ? (unsigned char)atoi(s) : 0;
  for (size_t i = 0; i < n; i++) ((unsigned char *)buf)[i] = (unsigned char)(i * 37 + k * 101 + 11);
  return (ssize_t)n;
}
// What compiled code reports.
int mc_log[256], mc_logged;
int mc_ev(int x) {
  if (mc_logged < 256) mc_log[mc_logged++] = x;
  return x;
}
