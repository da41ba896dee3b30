// what a program run by the command line tool reports: its arguments, its input and the outcome it was told
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <unistd.h>

static void hex(const char *p, size_t n) {
  for (size_t i = 0; i < n; ++i) printf("%02x", (unsigned char)p[i]);
}

// notes that module k has been executed
int32_t cli_note(int32_t k) {
  const char *f = getenv("MC_RUNS");
  char b[16];
  int fd = open(f, O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (fd < 0 || write(fd, b, sprintf(b, "%d\n", k)) < 0) abort();
  close(fd);
  return 0;
}

int32_t cli_probe(int32_t k) {
  static char b[1 << 20];
  cli_note(1000 + k);
  int fd = open("/proc/self/cmdline", O_RDONLY);
  size_t n = 0;
  ssize_t r;
  while ((r = read(fd, b + n, sizeof(b) - n)) > 0) n += r;
  close(fd);
  size_t i = strlen(b) + 1;
  while (i < n) {
    printf("a");
    hex(b + i, strlen(b + i));
    printf("\n");
    i += strlen(b + i) + 1;
  }
  uint64_t h = 14695981039346656037u;
  n = 0;
  while ((r = read(0, b, sizeof(b))) > 0) {
    for (ssize_t j = 0; j < r; ++j) h = (h ^ (unsigned char)b[j]) * 1099511628211u;
    n += r;
  }
  printf("i%zu %016llx\n", n, (unsigned long long)h);
  fflush(stdout);
  fprintf(stderr, "e%d\n", k);
  fflush(stderr);
  if (k < 256) exit(k);
  struct rlimit l = {0, 0};
  setrlimit(RLIMIT_CORE, &l);
  kill(getpid(), k - 256);
  for (;;) pause();
}

int32_t cli_arg(uint8_t *p, uint64_t n) {
  printf("a");
  hex((char *)p, n);
  printf("\n");
  fflush(stdout);
  return 0;
}
