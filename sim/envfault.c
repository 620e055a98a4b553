// LD_PRELOAD seam for C20: clock, entropy, process id and directory order come from the scenario.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/random.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static int64_t wall; static uint64_t seed, ticks; static int ready, pid, rev;
static unsigned long long used[4];
static void init(void) {
  if (ready) return;
  ready = 1;
  const char *w = getenv("ENVF_WALL"), *s = getenv("ENVF_SEED"), *p = getenv("ENVF_PID"), *r = getenv("ENVF_REV");
  wall = w ? atoll(w) : 1700000000; seed = s ? strtoull(s, 0, 10) : 1; pid = p ? atoi(p) : 4242; rev = r ? atoi(r) : 0;
}
static uint64_t rnd(void) { uint64_t z = (seed += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
#define REAL(name) static __typeof__(name) *real; if (!real) real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)

unsigned long long envf_used(int i) { return used[i]; }
// Simulated time advances by 50 us per query; the wall clock starts at ENVF_WALL seconds.
int clock_gettime(clockid_t c, struct timespec *t) {
  init(); used[0]++;
  uint64_t ns = __atomic_add_fetch(&ticks, 50000, __ATOMIC_RELAXED);
  int64_t base = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? wall : 1000;
  t->tv_sec = base + ns / 1000000000; t->tv_nsec = ns % 1000000000; return 0;
}
int gettimeofday(struct timeval *v, void *z) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); v->tv_sec = t.tv_sec; v->tv_usec = t.tv_nsec / 1000; return 0; }
time_t time(time_t *p) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
static void fill(void *b, size_t n) { uint8_t *p = b; while (n) { uint64_t x = rnd(); size_t k = n < 8 ? n : 8; memcpy(p, &x, k); p += k; n -= k; } }
ssize_t getrandom(void *b, size_t n, unsigned f) { init(); used[1]++; fill(b, n); return n; }
int getentropy(void *b, size_t n) { init(); used[1]++; fill(b, n); return 0; }
pid_t getpid(void) { init(); used[2]++; return pid; }
// Directory order: entries are handed out in one of four fixed permutations of the name order.
struct list { DIR *d; struct dirent64 *e; int n, at; };
static struct list lists[64];
static int cmp(const void *a, const void *b) {
  const char *x = ((const struct dirent64 *)a)->d_name, *y = ((const struct dirent64 *)b)->d_name;
  if (rev == 0) return strcmp(x, y);
  if (rev == 1) return strcmp(y, x);
  uint64_t h[2] = {seed * 0 + rev, seed * 0 + rev};
  for (int i = 0; i < 2; i++) for (const char *p = i ? y : x; *p; p++) h[i] = (h[i] ^ (uint8_t)*p) * 1099511628211ull;
  return h[0] < h[1] ? -1 : h[0] > h[1];
}
struct dirent64 *readdir64(DIR *d) {
  REAL(readdir64); init();
  struct list *l = 0;
  for (int i = 0; i < 64; i++) if (lists[i].d == d) l = &lists[i];
  if (!l) {
    for (int i = 0; i < 64 && !l; i++) if (!lists[i].d) l = &lists[i];
    if (!l) return real(d);
    l->d = d; l->n = l->at = 0; l->e = 0;
    struct dirent64 *x; int cap = 0;
    while ((x = real(d))) { if (l->n == cap) { cap = cap ? cap * 2 : 64; l->e = realloc(l->e, cap * sizeof *x); } memset(&l->e[l->n], 0, sizeof *x); memcpy(&l->e[l->n++], x, x->d_reclen); }
    qsort(l->e, l->n, sizeof *l->e, cmp);
    used[3]++;
  }
  return l->at < l->n ? &l->e[l->at++] : 0;
}
int closedir(DIR *d) { REAL(closedir); for (int i = 0; i < 64; i++) if (lists[i].d == d) { free(lists[i].e); lists[i].d = 0; lists[i].e = 0; } return real(d); }
void rewinddir(DIR *d) { REAL(rewinddir); for (int i = 0; i < 64; i++) if (lists[i].d == d) { free(lists[i].e); lists[i].d = 0; lists[i].e = 0; } real(d); }
