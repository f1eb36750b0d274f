// C08: any number of worker threads, any interleaving, independent concurrent callers (also on the very first use).
// MODE 1: gcc's OpenMP code with our own runtime, everything under ThreadSanitizer.
// MODE 2: the optimised build with libgomp, results compared bit for bit over team sizes and concurrent callers.
#include "tour.h"
#include <sys/wait.h>
#include <atomic>
#include <time.h>
#ifdef VH_TSAN
extern "C" { void shim_seed(uint64_t); void shim_threads(int); void shim_delays(int); long shim_regions(); long shim_members(); }
static void team(int n) { shim_threads(n); }
#else
#include <omp.h>
static void team(int n) { omp_set_num_threads(n); }
#endif
using namespace vh;

static u64 once(Inst &I, unsigned rs, u64 garbage) {
  I.reset(garbage);
  if (I.random) srand(rs);
  I.call();
  return I.result();
}
struct Spec { int op; u64 seed; unsigned rs; u64 base; };
static std::vector<Spec> specs;
struct Caller {
  std::vector<int> order;
  int id;
  pthread_t th;
  u64 seed;
  std::vector<u64> res;
};
static pthread_barrier_t bar;
static bool racing_random;
// one caller: its own objects, its own order of operations
static void *caller(void *p) {
  Caller &c = *(Caller *)p;
  team(1 + (int)(c.seed % 3));
  Rng r(c.seed);
  std::vector<std::unique_ptr<Inst>> is;
  for (int k : c.order) { is.push_back(ops()[specs[k].op].inst(specs[k].seed)); is.back()->reset(r.next()); }
  pthread_barrier_wait(&bar);
  for (size_t k = 0; k < c.order.size(); k++) {
    if (r.below(4) == 0) { timespec t{0, (long)r.below(40000)}; nanosleep(&t, nullptr); }
    is[k]->call();
    c.res.push_back(is[k]->result());
    if (!is[k]->inputs_intact()) viol(("input:" + is[k]->name).c_str(), "%s: an input was modified under concurrency", is[k]->name.c_str());
  }
  return nullptr;
}
// T callers start together; `same` lets all meet the same operation first
static void concurrent(Rng &r, int T, const std::vector<int> &pool, bool same, const char *what, int percaller) {
  std::vector<Caller> cs(T);
  pthread_barrier_init(&bar, nullptr, T);
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 512ULL << 20);
  for (int i = 0; i < T; i++) {
    cs[i].id = i;
    cs[i].seed = r.next();
    for (int k = 0; k < percaller; k++) cs[i].order.push_back(same ? pool[k % pool.size()] : pool[r.below(pool.size())]);
    if (!same && i && r.coin()) cs[i].order = cs[i - 1].order;  // pairs in lock-step
  }
  setcase("%s: %d concurrent callers, first operation %s, seed %llu", what, T, ops()[specs[cs[0].order[0]].op].name.c_str(), (unsigned long long)st().seed);
  for (auto &c : cs) if (pthread_create(&c.th, &at, caller, &c)) abort();
  for (auto &c : cs) pthread_join(c.th, nullptr);
  pthread_barrier_destroy(&bar);
  for (auto &c : cs)
    for (size_t k = 0; k < c.order.size(); k++) {
      Spec &s = specs[c.order[k]];
      auto I = ops()[s.op].inst(s.seed);
      cat("concurrent calls");
      cover(hmix(hmix(s.seed, c.seed), hmix(k, T)));
      if (I->random) continue;  // they share the random source
      if (s.base == 0) { team(1); s.base = once(*I, s.rs, 1); }
      if (c.res[k] != s.base) { viol(("concurrent:" + I->name).c_str(), "%s: called by several threads on their own objects, the result of caller %d differs from the result alone", I->name.c_str(), c.id); }
      cat("concurrent results compared");
    }
}
static void body() {
  reg_group(GROUP);
  Rng r = rng_for("specs", 0);
#ifdef VH_TSAN
  shim_seed(st().seed * 1000 + st().part);
#endif
  for (size_t i = 0; i < ops().size(); i++) {
    if (!mine(i)) continue;
    for (int k = 0; k < 2; k++) {
      specs.push_back(Spec{(int)i, r.next(), (unsigned)r.next(), 0});
      auto I = ops()[i].inst(specs.back().seed);
      if (I->prints) { specs.pop_back(); break; }
    }
  }
  // 1. first use: several callers meet an operation nobody has used before, at the same time
  for (size_t i = 0; i + 1 < specs.size(); i += 2) {
    std::vector<int> pool{(int)i, (int)i + 1};
    concurrent(r, 2 + (int)r.below(3), pool, true, "first use", 2);
    cat("first uses by concurrent callers");
  }
  // 2. every operation alone, with teams of 1 to 9
  int teams = (int)scale(TEAMS, TEAMS * 6);
  for (size_t i = 0; i < specs.size(); i++) {
    Spec &s = specs[i];
    auto I = ops()[s.op].inst(s.seed);
    team(1);
    u64 base = once(*I, s.rs, r.next());
    for (int t = 0; t < teams; t++) {
      static const int T[] = {2, 3, 4, 7, 1, 5, 9, 6, 8, 13};
      int n = t < 3 ? T[(t + i) % 4] : T[r.below(10)];
      team(n);
      setcase("%s input %llx with %d threads seed %llu", I->name.c_str(), (unsigned long long)s.seed, n, (unsigned long long)st().seed);
      u64 h = once(*I, s.rs, r.next());
      if (h != base) viol(("threads:" + I->name).c_str(), "%s: with %d threads the result differs from the result with one", I->name.c_str(), n);
      cover(hmix(I->input(), hmix(n, t)));
      cat("team runs");
    }
    if (!I->random) s.base = base;
  }
  // 3. callers with mixed operations
  std::vector<int> pool;
  for (size_t i = 0; i < specs.size(); i++) pool.push_back((int)i);
  int mixes = (int)scale(MIXES, MIXES * 8);
  if (!pool.empty())
    for (int m = 0; m < mixes; m++) concurrent(r, 2 + (int)r.below(4), pool, false, "mixed use", 1 + (int)r.below(8));
#ifdef VH_TSAN
  cat("parallel regions", shim_regions());
  cat("team members", shim_members());
#endif
  sample("%zu inputs of %zu operations of group %d: first use by concurrent callers, teams, mixed callers", specs.size(), ops().size(), GROUP);
}
VH_MAIN(body)
