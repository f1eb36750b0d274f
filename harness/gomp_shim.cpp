// A small OpenMP runtime with the entry points gcc emits, built from pthreads so that ThreadSanitizer sees every
// synchronisation. Team size and delays are random; a fresh set of threads is created for every parallel region.
#include <pthread.h>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <deque>
#include <atomic>
#include <sched.h>
#include <time.h>

namespace {
struct Team {
  unsigned n;
  pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
  pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
  unsigned waiting = 0, phase = 0;
  // work-sharing loops / sections: one record per construct a team meets
  struct Loop { bool init = false; long next, end, incr, chunk; unsigned taken = 0; };
  std::deque<Loop> loops = std::deque<Loop>(4);
  void *copy = nullptr;
  void barrier() {
    pthread_mutex_lock(&mu);
    unsigned p = phase;
    if (++waiting == n) { waiting = 0; phase++; pthread_cond_broadcast(&cv); }
    else while (phase == p) pthread_cond_wait(&cv, &mu);
    pthread_mutex_unlock(&mu);
  }
};
struct Me { Team *t = nullptr; unsigned id = 0; unsigned loopno = 0; Team::Loop *cur = nullptr; };
thread_local Me me;
thread_local uint64_t rs = 0;
std::atomic<uint64_t> seedc{1};
std::atomic<int> forced{0};
std::atomic<int> delays{1};
uint64_t rnd() {
  if (!rs) rs = seedc.fetch_add(0x9E3779B97F4A7C15ULL, std::memory_order_relaxed) | 1;
  uint64_t z = (rs += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
void jitter() {
  if (!delays.load(std::memory_order_relaxed)) return;
  switch (rnd() % 8) {
    case 0: sched_yield(); break;
    case 1: { timespec t{0, (long)(rnd() % 60000)}; nanosleep(&t, nullptr); break; }
    default: break;
  }
}
pthread_mutex_t lockm = PTHREAD_MUTEX_INITIALIZER;
std::deque<pthread_mutex_t> locks;
pthread_mutex_t critical = PTHREAD_MUTEX_INITIALIZER, atomicm = PTHREAD_MUTEX_INITIALIZER;
struct Arg { void (*fn)(void *); void *data; Team *t; unsigned id; };
void *member(void *p) {
  Arg *a = (Arg *)p;
  me.t = a->t; me.id = a->id; me.loopno = 0;
  jitter();
  a->fn(a->data);
  return nullptr;
}
std::atomic<long> regions{0}, members{0};
Team::Loop *loop(Team *t, unsigned k) {
  pthread_mutex_lock(&t->mu);
  while (t->loops.size() <= k) t->loops.emplace_back();
  Team::Loop *l = &t->loops[k];
  pthread_mutex_unlock(&t->mu);
  return l;
}
}  // namespace

extern "C" {
long shim_regions() { return regions.load(); }
long shim_members() { return members.load(); }
void shim_seed(uint64_t s) { seedc.store(s * 2654435761u + 12345); rs = 0; }
void shim_threads(int n) { forced.store(n); }
void shim_delays(int n) { delays.store(n); }

int omp_get_thread_num(void) { return (int)me.id; }
int omp_get_num_threads(void) { return me.t ? (int)me.t->n : 1; }
int omp_get_max_threads(void) { int f = forced.load(); return f ? f : 4; }
int omp_get_num_procs(void) { return 4; }
int omp_in_parallel(void) { return me.t && me.t->n > 1; }
void omp_set_num_threads(int n) { (void)n; }
double omp_get_wtime(void) { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static void parallel(void (*fn)(void *), void *data, unsigned n, long start, long end, long incr, long chunk, bool isloop) {
  if (n == 0) { int f = forced.load(); n = f ? (unsigned)f : 1 + (unsigned)(rnd() % 6); }
  if (me.t && me.t->n > 1) n = 1;  // nested regions are serial
  Team t;
  t.n = n;
  if (isloop) { auto &l = t.loops[0]; l.init = true; l.next = start; l.end = end; l.incr = incr; l.chunk = chunk < 1 ? 1 : chunk; }
  regions.fetch_add(1, std::memory_order_relaxed);
  members.fetch_add(n, std::memory_order_relaxed);
  std::vector<pthread_t> th(n);
  std::vector<Arg> ar(n);
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 64ULL << 20);
  for (unsigned i = 1; i < n; i++) {
    ar[i] = Arg{fn, data, &t, i};
    if (pthread_create(&th[i], &at, member, &ar[i])) abort();
  }
  Me old = me;
  me.t = &t; me.id = 0; me.loopno = 0; me.cur = nullptr;
  jitter();
  fn(data);
  me = old;
  for (unsigned i = 1; i < n; i++) pthread_join(th[i], nullptr);
  pthread_attr_destroy(&at);
}
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { parallel(fn, data, n, 0, 0, 0, 0, false); }
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned n, unsigned) { parallel(fn, data, n, 0, 0, 0, 0, false); return 1; }
#define PL(name) void name(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c, unsigned) { parallel(fn, data, n, s, e, i, c, true); }
#define PLR(name) void name(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, unsigned) { parallel(fn, data, n, s, e, i, 1, true); }
PL(GOMP_parallel_loop_static) PL(GOMP_parallel_loop_dynamic) PL(GOMP_parallel_loop_guided)
PL(GOMP_parallel_loop_nonmonotonic_dynamic) PL(GOMP_parallel_loop_nonmonotonic_guided)
PLR(GOMP_parallel_loop_runtime) PLR(GOMP_parallel_loop_nonmonotonic_runtime) PLR(GOMP_parallel_loop_maybe_nonmonotonic_runtime)

bool shim_next(long *a, long *b) {
  jitter();
  if (!me.t) return false;
  Team::Loop *l = me.cur;
  if (!l) l = me.cur = loop(me.t, me.loopno);
  pthread_mutex_lock(&me.t->mu);
  bool more = l->incr > 0 ? l->next < l->end : l->next > l->end;
  if (more) {
    *a = l->next;
    long e = l->next + l->chunk * l->incr;
    if (l->incr > 0 ? e > l->end : e < l->end) e = l->end;
    *b = e;
    l->next = e;
  }
  pthread_mutex_unlock(&me.t->mu);
  return more;
}
static Team single;  // for constructs met outside any region
bool shim_start(long s, long e, long i, long c, long *a, long *b) {
  if (!me.t) { *a = s; *b = e; return i > 0 ? s < e : s > e; }
  Team::Loop *l = me.cur = loop(me.t, me.loopno);
  pthread_mutex_lock(&me.t->mu);
  if (!l->init) { l->init = true; l->next = s; l->end = e; l->incr = i; l->chunk = c < 1 ? 1 : c; }
  pthread_mutex_unlock(&me.t->mu);
  return shim_next(a, b);
}
#define LS(name) bool name(long s, long e, long i, long c, long *a, long *b) { return shim_start(s, e, i, c, a, b); }
#define LN(name) bool name(long *a, long *b) { return shim_next(a, b); }
LS(GOMP_loop_static_start) LS(GOMP_loop_dynamic_start) LS(GOMP_loop_guided_start) LS(GOMP_loop_nonmonotonic_dynamic_start) LS(GOMP_loop_nonmonotonic_guided_start)
LN(GOMP_loop_static_next) LN(GOMP_loop_dynamic_next) LN(GOMP_loop_guided_next) LN(GOMP_loop_nonmonotonic_dynamic_next) LN(GOMP_loop_nonmonotonic_guided_next)
LN(GOMP_loop_runtime_next) LN(GOMP_loop_maybe_nonmonotonic_runtime_next)
bool GOMP_loop_runtime_start(long s, long e, long i, long *a, long *b) { return shim_start(s, e, i, 1, a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *a, long *b) { return shim_start(s, e, i, 1, a, b); }
void GOMP_barrier(void) { if (me.t && me.t->n > 1) me.t->barrier(); jitter(); }
void GOMP_loop_end_nowait(void) { me.cur = nullptr; me.loopno++; }
void GOMP_loop_end(void) { me.cur = nullptr; me.loopno++; GOMP_barrier(); }
bool GOMP_single_start(void) {
  if (!me.t) return true;
  Team::Loop *l = loop(me.t, me.loopno++);
  pthread_mutex_lock(&me.t->mu);
  bool first = l->taken++ == 0;
  pthread_mutex_unlock(&me.t->mu);
  return first;
}
// the value of a single construct with copyprivate is published by the thread that ran it
void *GOMP_single_copy_start(void) {
  if (!me.t || me.t->n == 1) return nullptr;
  if (GOMP_single_start()) return nullptr;
  me.t->barrier();
  void *r = me.t->copy;
  me.t->barrier();
  return r;
}
void GOMP_single_copy_end(void *data) {
  if (!me.t || me.t->n == 1) return;
  me.t->copy = data;
  me.t->barrier();
  me.t->barrier();
}
typedef unsigned long long ull;
#define US(name) bool name(bool up, ull s, ull e, ull i, ull c, ull *a, ull *b) { (void)up; return shim_start((long)s, (long)e, (long)i, (long)c, (long *)a, (long *)b); }
#define UN(name) bool name(ull *a, ull *b) { return shim_next((long *)a, (long *)b); }
US(GOMP_loop_ull_static_start) US(GOMP_loop_ull_dynamic_start) US(GOMP_loop_ull_guided_start) US(GOMP_loop_ull_nonmonotonic_dynamic_start) US(GOMP_loop_ull_nonmonotonic_guided_start)
UN(GOMP_loop_ull_static_next) UN(GOMP_loop_ull_dynamic_next) UN(GOMP_loop_ull_guided_next) UN(GOMP_loop_ull_nonmonotonic_dynamic_next) UN(GOMP_loop_ull_nonmonotonic_guided_next)
UN(GOMP_loop_ull_runtime_next) UN(GOMP_loop_ull_maybe_nonmonotonic_runtime_next)
bool GOMP_loop_ull_runtime_start(bool, ull s, ull e, ull i, ull *a, ull *b) { return shim_start((long)s, (long)e, (long)i, 1, (long *)a, (long *)b); }
bool GOMP_loop_ull_maybe_nonmonotonic_runtime_start(bool, ull s, ull e, ull i, ull *a, ull *b) { return shim_start((long)s, (long)e, (long)i, 1, (long *)a, (long *)b); }
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
void GOMP_taskyield(void) {}
int omp_get_thread_limit(void) { return 64; }
int omp_get_dynamic(void) { return 0; }
void omp_set_dynamic(int) {}
int omp_get_nested(void) { return 0; }
void omp_set_nested(int) {}
int omp_get_max_active_levels(void) { return 1; }
void omp_set_max_active_levels(int) {}
int omp_get_level(void) { return me.t ? 1 : 0; }
int omp_get_active_level(void) { return me.t && me.t->n > 1; }
double omp_get_wtick(void) { return 1e-9; }
// gcc's omp_lock_t is four bytes: it holds an index into a table of mutexes. A
// nest lock (sixteen bytes) uses its first four the same way.
static void lock_new(void *l, bool rec) {
  pthread_mutexattr_t at;
  pthread_mutexattr_init(&at);
  if (rec) pthread_mutexattr_settype(&at, PTHREAD_MUTEX_RECURSIVE);
  pthread_mutex_lock(&lockm);
  locks.emplace_back();
  pthread_mutex_init(&locks.back(), &at);
  int ix = (int)locks.size() - 1;
  memcpy(l, &ix, 4);
  pthread_mutex_unlock(&lockm);
}
static pthread_mutex_t *lk(void *l) {
  int ix;
  memcpy(&ix, l, 4);
  pthread_mutex_lock(&lockm);
  pthread_mutex_t *m = &locks[(size_t)ix];
  pthread_mutex_unlock(&lockm);
  return m;
}
void omp_init_lock(void *l) { lock_new(l, false); }
void omp_destroy_lock(void *) {}
void omp_set_lock(void *l) { pthread_mutex_lock(lk(l)); jitter(); }
void omp_unset_lock(void *l) { pthread_mutex_unlock(lk(l)); jitter(); }
int omp_test_lock(void *l) { return pthread_mutex_trylock(lk(l)) == 0; }
void omp_init_nest_lock(void *l) { lock_new(l, true); }
void omp_destroy_nest_lock(void *) {}
void omp_set_nest_lock(void *l) { pthread_mutex_lock(lk(l)); jitter(); }
void omp_unset_nest_lock(void *l) { pthread_mutex_unlock(lk(l)); jitter(); }
unsigned GOMP_sections_start(unsigned n) { long a, b; return shim_start(1, (long)n + 1, 1, 1, &a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_next(void) { long a, b; return me.t && shim_next(&a, &b) ? (unsigned)a : 0; }
void GOMP_sections_end(void) { GOMP_loop_end(); }
void GOMP_sections_end_nowait(void) { GOMP_loop_end_nowait(); }
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned n, unsigned cnt, unsigned) { parallel(fn, data, n, 1, (long)cnt + 1, 1, 1, true); }
void GOMP_critical_start(void) { pthread_mutex_lock(&critical); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&critical); jitter(); }
void GOMP_critical_name_start(void **) { pthread_mutex_lock(&critical); }
void GOMP_critical_name_end(void **) { pthread_mutex_unlock(&critical); jitter(); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&atomicm); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&atomicm); }
void GOMP_task(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long arg_size, long arg_align, bool, unsigned, void **, int, void *) {
  if (cpyfn) {
    std::vector<char> buf((size_t)(arg_size + arg_align));
    char *p = (char *)(((uintptr_t)buf.data() + arg_align - 1) & ~(uintptr_t)(arg_align - 1));
    cpyfn(p, data);
    fn(p);
  } else fn(data);
}
void GOMP_taskwait(void) {}
}
