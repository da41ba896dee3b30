// A process for P24: prints its arguments, copies its input to the error output, ends as told
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
int main(int argc, char **argv) {
  static char b[1 << 20];
  size_t n = 0;
  ssize_t k;
  while ((k = read(0, b + n, sizeof b - n)) > 0) n += k;
  for (int i = 2; i < argc; i++) fwrite(argv[i], 1, strlen(argv[i]) + 1, stdout);
  fflush(stdout);
  fclose(stdout);
  for (size_t i = 0; i < n;) { k = write(2, b + i, n - i); if (k <= 0) return 99; i += k; }
  if (argv[1][0] == 's') { signal(atoi(argv[1] + 1), SIG_DFL); kill(getpid(), atoi(argv[1] + 1)); pause(); }
  return atoi(argv[1]);
}
