/* A substitute OpenMP runtime for monitored runs (LD_PRELOADed instead of libgomp).
 *
 * Every parallel region gets fresh pthreads; which thread executes which loop chunk, in which order, and where
 * threads are delayed is decided by a seed and a policy set with verif_omp_config().  Chunks are assigned without
 * any shared state, so that under ThreadSanitizer only the synchronisation OpenMP promises (region start/end,
 * barriers, critical, atomic, single) orders the threads.
 */
#define _GNU_SOURCE
#include <limits.h>
#include <pthread.h>
#include <sched.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

static unsigned cfg_seed = 1, cfg_policy = 0, cfg_default = 4;
static long n_regions, n_chunks, n_barriers, n_delays, n_multi;

void verif_omp_config(unsigned seed, unsigned policy, unsigned dflt) {
  cfg_seed = seed;
  cfg_policy = policy;
  if (dflt) cfg_default = dflt;
}
long verif_omp_stat(int which) {
  long *t[] = {&n_regions, &n_chunks, &n_barriers, &n_delays, &n_multi};
  return which < 5 ? __atomic_load_n(t[which], __ATOMIC_RELAXED) : -1;
}
static void stat_add(long *p) { __atomic_fetch_add(p, 1, __ATOMIC_RELAXED); }

typedef struct team {
  int n;
  unsigned seed, policy;
  pthread_barrier_t bar;
  pthread_mutex_t mu;
  /* single / sections / copyprivate */
  unsigned single_taken;
  void *copy;
  struct team *parent;
} team_t;

typedef struct {
  team_t *team;
  int id;
  unsigned loops, singles;
  /* the loop in progress */
  long start, incr, chunk, count; /* count: iterations */
  long *mine;
  long nmine, pos;
  long end;
  unsigned sect, nsect;
  uint64_t rnd;
} thr_t;

static __thread thr_t self;

static uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
static uint64_t rnd(void) { return self.rnd = mix(self.rnd + 1); }

/* policies: 0 round robin, 1 reversed round robin, 2 random assignment, 3 one thread does everything,
 * 4 blocks, 5 random assignment and random order.  +8: delays */
static void maybe_delay(void) {
  if (!self.team || !(self.team->policy & 8)) return;
  uint64_t r = rnd() % 16;
  if (r < 4) sched_yield();
  else if (r < 6) {
    struct timespec ts = {0, (long)(rnd() % 200000)};
    nanosleep(&ts, NULL);
    stat_add(&n_delays);
  } else if (r == 6) {
    for (volatile int i = 0; i < (int)(rnd() % 3000); ++i) {}
  }
}

typedef struct { void (*fn)(void *); void *data; team_t *team; int id; unsigned seed; } start_t;

static void enter(team_t *t, int id, thr_t *save) {
  *save = self;
  memset(&self, 0, sizeof self);
  self.team = t;
  self.id = id;
  self.rnd = mix(((uint64_t)t->seed << 20) ^ (unsigned)id);
}
static void leave(thr_t *save) { free(self.mine); self = *save; }

static void *runner(void *p) {
  start_t *s = p;
  thr_t save;
  enter(s->team, s->id, &save);
  maybe_delay();
  s->fn(s->data);
  leave(&save);
  return NULL;
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned num_threads, unsigned flags) {
  static unsigned region;
  unsigned n = num_threads ? num_threads : cfg_default;
  team_t team;
  memset(&team, 0, sizeof team);
  if (self.team) n = 1; /* nested */
  if (n > 64) n = 64;
  team.n = (int)n;
  team.policy = cfg_policy;
  team.seed = (unsigned)mix(((uint64_t)cfg_seed << 32) ^ __atomic_fetch_add(&region, 1, __ATOMIC_RELAXED));
  team.parent = self.team;
  pthread_barrier_init(&team.bar, NULL, n);
  pthread_mutex_init(&team.mu, NULL);
  stat_add(&n_regions);
  if (n > 1) stat_add(&n_multi);
  pthread_t th[64];
  start_t st[64];
  for (unsigned i = 1; i < n; ++i) {
    st[i] = (start_t){fn, data, &team, (int)i, team.seed};
    if (pthread_create(&th[i], NULL, runner, &st[i])) { fprintf(stderr, "gompshim: no thread\n"); _exit(77); }
  }
  thr_t save;
  enter(&team, 0, &save);
  maybe_delay();
  fn(data);
  leave(&save);
  for (unsigned i = 1; i < n; ++i) pthread_join(th[i], NULL);
  pthread_barrier_destroy(&team.bar);
  pthread_mutex_destroy(&team.mu);
}

void GOMP_barrier(void) {
  stat_add(&n_barriers);
  if (self.team && self.team->n > 1) {
    maybe_delay();
    pthread_barrier_wait(&self.team->bar);
  }
}

/* ---- loops */
static bool next_chunk(long *is, long *ie) {
  maybe_delay();
  if (self.pos >= self.nmine) return false;
  long c = self.mine[self.pos++];
  long a = c * self.chunk, b = a + self.chunk;
  if (b > self.count) b = self.count;
  *is = self.start + a * self.incr;
  *ie = self.start + b * self.incr;
  stat_add(&n_chunks);
  return true;
}

static bool loop_start(long start, long end, long incr, long chunk, long *is, long *ie) {
  team_t *t = self.team;
  unsigned n = t ? (unsigned)t->n : 1, pol = t ? (t->policy & 7) : 0;
  self.start = start;
  self.incr = incr;
  self.count = incr > 0 ? (end - start + incr - 1) / incr : (start - end - incr - 1) / -incr;
  if (self.count < 0) self.count = 0;
  self.chunk = chunk > 0 ? chunk : 1;
  long nch = (self.count + self.chunk - 1) / self.chunk;
  free(self.mine);
  self.mine = malloc(sizeof(long) * (size_t)(nch + 1));
  self.nmine = self.pos = 0;
  uint64_t ls = mix(((uint64_t)(t ? t->seed : 0) << 16) ^ self.loops++);
  unsigned hog = (unsigned)(ls % n);
  for (long c = 0; c < nch; ++c) {
    unsigned o;
    switch (pol) {
    case 2: case 5: o = (unsigned)(mix(ls ^ (uint64_t)c * 0x9e3779b1u) % n); break;
    case 3: o = hog; break;
    case 4: o = (unsigned)(c * (long)n / nch); break;
    default: o = (unsigned)(c % (long)n);
    }
    if (o == (unsigned)self.id) self.mine[self.nmine++] = c;
  }
  if (pol == 1)
    for (long i = 0, j = self.nmine - 1; i < j; ++i, --j) { long x = self.mine[i]; self.mine[i] = self.mine[j]; self.mine[j] = x; }
  if (pol == 5)
    for (long i = self.nmine - 1; i > 0; --i) { long j = (long)(rnd() % (uint64_t)(i + 1)); long x = self.mine[i]; self.mine[i] = self.mine[j]; self.mine[j] = x; }
  return next_chunk(is, ie);
}

#define LOOP(name) \
  bool GOMP_loop_##name##_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); } \
  bool GOMP_loop_##name##_next(long *a, long *b) { return next_chunk(a, b); }
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define LOOPRT(name) \
  bool GOMP_loop_##name##_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, a, b); } \
  bool GOMP_loop_##name##_next(long *a, long *b) { return next_chunk(a, b); }
LOOPRT(runtime) LOOPRT(nonmonotonic_runtime) LOOPRT(maybe_nonmonotonic_runtime)
typedef unsigned long long ull;
#define LOOPULL(name) \
  bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull c, ull *a, ull *b) { \
    (void)up; return loop_start((long)s, (long)e, (long)i, (long)c, (long *)a, (long *)b); } \
  bool GOMP_loop_ull_##name##_next(ull *a, ull *b) { return next_chunk((long *)a, (long *)b); }
LOOPULL(static) LOOPULL(dynamic) LOOPULL(guided) LOOPULL(nonmonotonic_dynamic) LOOPULL(nonmonotonic_guided)

void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}
bool GOMP_loop_end_cancel(void) { GOMP_barrier(); return false; }

/* combined parallel loops */
typedef struct { void (*fn)(void *); void *data; long s, e, i, c; } pl_t;
static void pl_run(void *p) {
  pl_t *x = p;
  /* the body calls ..._next first: leave the cursor at the first chunk */
  long a, b;
  loop_start(x->s, x->e, x->i, x->c, &a, &b);
  self.pos = 0;
  x->fn(x->data);
}
#define PLOOP(name) \
  void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) { \
    pl_t x = {fn, d, s, e, i, c}; GOMP_parallel(pl_run, &x, n, f); }
PLOOP(static) PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) {
  pl_t x = {fn, d, s, e, i, 1}; GOMP_parallel(pl_run, &x, n, f); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) {
  pl_t x = {fn, d, s, e, i, 1}; GOMP_parallel(pl_run, &x, n, f); }

/* ---- mutual exclusion */
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER;
static pthread_mutex_t meta = PTHREAD_MUTEX_INITIALIZER;
void GOMP_critical_start(void) { maybe_delay(); pthread_mutex_lock(&crit); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start(void **p) {
  maybe_delay();
  pthread_mutex_lock(&meta);
  pthread_mutex_t *m = *p;
  if (!m) { m = malloc(sizeof *m); pthread_mutex_init(m, NULL); *p = m; }
  pthread_mutex_unlock(&meta);
  pthread_mutex_lock(m);
}
void GOMP_critical_name_end(void **p) { pthread_mutex_unlock((pthread_mutex_t *)*p); }
void GOMP_atomic_start(void) { maybe_delay(); pthread_mutex_lock(&atom); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&atom); }

bool GOMP_single_start(void) {
  if (!self.team) return true;
  bool r = false;
  unsigned k = ++self.singles;
  pthread_mutex_lock(&self.team->mu);
  if (self.team->single_taken < k) { self.team->single_taken = k; r = true; }
  pthread_mutex_unlock(&self.team->mu);
  return r;
}
void *GOMP_single_copy_start(void) {
  if (!self.team) return NULL;
  if (GOMP_single_start()) return NULL;
  pthread_barrier_wait(&self.team->bar);
  void *p = self.team->copy;
  pthread_barrier_wait(&self.team->bar);
  return p;
}
void GOMP_single_copy_end(void *d) {
  if (!self.team) return;
  self.team->copy = d;
  pthread_barrier_wait(&self.team->bar);
  pthread_barrier_wait(&self.team->bar);
}
unsigned GOMP_sections_start(unsigned n) {
  self.nsect = n;
  self.sect = 0;
  unsigned t = self.team ? (unsigned)self.team->n : 1;
  unsigned s = (unsigned)self.id + 1;
  self.sect = s + t;
  return s <= n ? s : 0;
}
unsigned GOMP_sections_next(void) {
  unsigned t = self.team ? (unsigned)self.team->n : 1, s = self.sect;
  self.sect = s + t;
  return s <= self.nsect ? s : 0;
}
void GOMP_sections_end(void) { GOMP_barrier(); }
void GOMP_sections_end_nowait(void) {}

/* ---- omp_* */
int omp_get_thread_num(void) { return self.id; }
int omp_get_num_threads(void) { return self.team ? self.team->n : 1; }
int omp_get_max_threads(void) { return (int)cfg_default; }
int omp_get_num_procs(void) { return (int)cfg_default; }
int omp_in_parallel(void) { return self.team && self.team->n > 1; }
void omp_set_num_threads(int n) { if (n > 0) cfg_default = (unsigned)n; }
int omp_get_dynamic(void) { return 0; }
void omp_set_dynamic(int d) { (void)d; }
int omp_get_nested(void) { return 0; }
void omp_set_nested(int d) { (void)d; }
int omp_get_level(void) { return self.team ? 1 : 0; }
int omp_get_thread_limit(void) { return 64; }
double omp_get_wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
double omp_get_wtick(void) { return 1e-9; }
typedef struct { pthread_mutex_t *m; } olock_t;
void omp_init_lock(void **l) { pthread_mutex_t *m = malloc(sizeof *m); pthread_mutex_init(m, NULL); *l = m; }
void omp_destroy_lock(void **l) { pthread_mutex_destroy((pthread_mutex_t *)*l); free(*l); }
void omp_set_lock(void **l) { pthread_mutex_lock((pthread_mutex_t *)*l); }
void omp_unset_lock(void **l) { pthread_mutex_unlock((pthread_mutex_t *)*l); }
int omp_test_lock(void **l) { return pthread_mutex_trylock((pthread_mutex_t *)*l) == 0; }

/* a deliberate race: shows that the detector sees what happens inside parallel regions */
static int race_cell;
static void verif_race_selftest_body(void *p) { (void)p; race_cell = race_cell + 1; }
void verif_race_selftest(void) { GOMP_parallel(verif_race_selftest_body, NULL, 3, 0); }
