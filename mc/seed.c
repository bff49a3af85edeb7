/* Interposed getrandom and clock: hash seeds (MC_HASH_SEED) and the course of time (MC_CLOCK) become
 * enumerated inputs. */
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
  const char *s = getenv("MC_HASH_SEED");
  uint64_t x = (s ? strtoull(s, 0, 10) : 0) * 0x9E3779B97F4A7C15ull + 1;
  unsigned char *p = buf;
  (void)flags;
  for (size_t i = 0; i < n; i++) {
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    p[i] = (unsigned char)(x >> 32);
  }
  return (ssize_t)n;
}
int clock_gettime(clockid_t id, struct timespec *t) {
  static volatile long calls;
  const char *s = getenv("MC_CLOCK");
  long r = syscall(SYS_clock_gettime, id, t);
  switch (s ? atoi(s) : 0) {
  case 1: t->tv_sec += 1000 * __sync_add_and_fetch(&calls, 1); break;   /* an age passes between any two readings */
  case 2: t->tv_sec = 1000; t->tv_nsec = 0; break;                       /* time stands still */
  case 3: t->tv_sec += 4000000000L; break;                               /* another century */
  }
  return (int)r;
}
