// C24: results depend only on the inputs (and the random source), never on history, garbage or addresses.
#include "tour.h"
#include <malloc.h>
#include <sys/wait.h>
using namespace vh;

__attribute__((noinline)) static void dirty_stack(u64 seed, size_t bytes) {
  volatile u64 *p = (volatile u64 *)__builtin_alloca(bytes);
  u64 x = seed;
  for (size_t i = 0; i < bytes / 8; i++) { p[i] = (seed & 3) == 0 ? 0 : (seed & 3) == 1 ? ~0ULL : (x = x * 6364136223846793005ULL + 1442695040888963407ULL); }
}
static void dirty_heap(Rng &r) {
  std::vector<void *> v;
  for (int i = 0; i < 40; i++) {
    size_t n = (size_t)16 << r.below(13);
    n -= r.below(n / 2);
    unsigned char *c = (unsigned char *)malloc(n);
    for (size_t k = 0; k < n; k++) c[k] = (unsigned char)r.next();
    v.push_back(c);
  }
  for (auto p : v) free(p);
}
// what the operation printed counts as a result
static u64 once(Inst &I, unsigned rs, u64 garbage, bool *consumed) {
  I.reset(garbage);
  srand(rs);
  u64 h = 0;
  if (I.prints) {
    Capture c;
    I.call();
    std::cout.flush();
    std::string s = c.end();
    h = hbytes(s.data(), s.size());
  } else I.call();
  u64 next = (u64)rand();
  srand(rs);
  *consumed = next != (u64)rand();
  return hmix(hmix(I.result(), h), I.random ? next : 0);
}
struct Spec { int op; u64 seed; unsigned rs; u64 base; bool ok; u64 mut, mbase; };
static std::vector<Spec> specs;
static void fresh() {  // every specification in a process of its own that has done nothing before
  for (auto &s : specs) for (int m = 0; m < 2; m++) {
    int fd[2];
    if (pipe(fd)) abort();
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
      auto I = ops()[s.op].inst(s.seed);
      bool c;
      if (m) I->mutate(s.mut);
      u64 h = once(*I, s.rs, 4 * s.seed, &c);
      if (write(fd[1], &h, 8) != 8) _exit(1);
      _exit(0);
    }
    close(fd[1]);
    s.ok = read(fd[0], m ? &s.mbase : &s.base, 8) == 8 && s.ok;
    close(fd[0]);
    int stt;
    waitpid(p, &stt, 0);
    if (!s.ok) { setcase("%s input %llx in a fresh process", ops()[s.op].name.c_str(), (unsigned long long)s.seed); viol("died", "the operation ended the process (status %d)", stt); }
  }
}
static void history() {
  Rng r = rng_for("history", 1);
  std::map<std::string, int> seen;
  int rounds = (int)scale(ROUNDS, ROUNDS * 6);
  for (int round = 0; round < rounds; round++) {
    std::vector<int> order(specs.size());
    for (size_t i = 0; i < order.size(); i++) order[i] = (int)i;
    for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
    for (int k : order) {
      Spec &s = specs[k];
      if (!s.ok) continue;
      // garbage on the heap first: the instance itself then lives at another address
      dirty_heap(r);
      void *gap = malloc(1 + r.below(5000));
      mallopt(M_PERTURB, (int)r.below(256));
      auto I = ops()[s.op].inst(s.seed);
      u64 g = r.next();
      setcase("%s input %llx garbage %llx round %d seed %llu", I->name.c_str(), (unsigned long long)s.seed, (unsigned long long)g, round, (unsigned long long)st().seed);
      dirty_stack(r.next(), 64 + r.below(4 << 20));
      bool consumed;
      u64 h = once(*I, s.rs, g, &consumed);
      free(gap);
      if (h != s.base) viol(("result:" + I->name).c_str(), "%s: the result differs from the result of the same call in a fresh process", I->name.c_str());
      if (!I->random && consumed) viol(("random:" + I->name).c_str(), "%s: the operation consumed randomness", I->name.c_str());
      if (!I->inputs_intact()) viol(("input:" + I->name).c_str(), "%s: an input was modified", I->name.c_str());
      if (!I->guards()) viol(("guard:" + I->name).c_str(), "%s: memory next to an object was modified", I->name.c_str());
      // the same objects again, one of them changed in place
      if (r.coin()) {
        I->mutate(s.mut);
        u64 h3 = once(*I, s.rs, r.next(), &consumed);
        if (h3 != s.mbase) viol(("changed:" + I->name).c_str(), "%s: called again on the same objects after one input was changed, the result differs from the one in a fresh process", I->name.c_str());
        if (!I->guards() || !I->inputs_intact()) viol(("changed-input:" + I->name).c_str(), "%s: an input or its surroundings were modified", I->name.c_str());
        cover(hmix(hmix(I->input(), s.rs), hmix(round, g)));
        cat("runs on the same objects with one input changed in place");
        continue;
      }
      if (I->random) {  // another random state gives another result (unless nothing was drawn), the same state the same
        bool c2;
        u64 h2 = once(*I, s.rs, r.next(), &c2);
        if (h2 != h) viol(("repeat:" + I->name).c_str(), "%s: same input and random state, second call differs", I->name.c_str());
        cat("randomised operations repeated");
      }
      cover(hmix(hmix(I->input(), s.rs), hmix(round, g)));
      cat("operation runs");
      if (seen[I->name]++ == 0) cat("operations (template instances)");
    }
  }
  if (!specs.empty()) sample("%s, input seed %llx, %d rounds in random order against a fresh process", ops()[specs[0].op].name.c_str(), (unsigned long long)specs[0].seed, rounds);
}
static void *thr(void *) { history(); return nullptr; }
static void body() {
  reg_group(GROUP);
  Rng r = rng_for("specs", 0);
  for (size_t i = 0; i < ops().size(); i++) {
    if (!mine(i)) continue;
    int n = (int)scale(3, 5);
    for (int k = 0; k < n; k++) specs.push_back(Spec{(int)i, r.next(), (unsigned)r.next(), 0, true, r.next(), 0});
  }
  fresh();
  (void)thr;
  history();
}
VH_MAIN(body)
