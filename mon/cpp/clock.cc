// A clock for the sample program that steps as the environment says, and is logged when
// the program ends.  VERIF_CLOCK: start and steps in ns.
#include <stdio.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

static unsigned long long now_, steps[64], log_[100000];
static size_t n_steps, n_log;

static void Done() {
  fputs("\n@@@@clock", stderr);
  for (size_t i = 0; i < n_log; ++i) fprintf(stderr, " %llu", log_[i]);
  fputs("\n", stderr);
}

extern "C" int clock_gettime(clockid_t id, struct timespec* ts) {
  if (!n_steps) return syscall(SYS_clock_gettime, id, ts);
  now_ += steps[n_log % n_steps];
  if (n_log < sizeof(log_) / sizeof(log_[0])) log_[n_log++] = now_;
  ts->tv_sec = now_ / 1000000000ull;
  ts->tv_nsec = now_ % 1000000000ull;
  return 0;
}

__attribute__((constructor)) static void Begin() {
  char* p = getenv("VERIF_CLOCK");
  if (!p) return;
  now_ = strtoull(p, &p, 10);
  size_t n = 0;
  while (*p && n < 64) steps[n++] = strtoull(p, &p, 10);
  atexit(Done);
  n_steps = n;
}
