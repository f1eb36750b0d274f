// C25: every operation under AddressSanitizer + UndefinedBehaviorSanitizer, and under valgrind memcheck (definedness).
#include "tour.h"
#ifdef VH_MEMCHECK
#define MODE "memcheck"
#else
#define MODE "asan"
#include <sanitizer/common_interface_defs.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif
using namespace vh;

static void body() {
  reg_group(GROUP);
  setvbuf(stdout, nullptr, _IONBF, 0);
  int n = (int)scale(REPS, REPS * 8);
  for (size_t i = 0; i < ops().size(); i++) {
    if (!mine(i)) continue;
    Rng r = rng_for("tour", i);
    auto &o = ops()[i];
    int m = n;
    for (int k = 0; k < m; k++) {
      u64 seed = r.next(), g = r.next();
      setcase("%s input %llx garbage %llx seed %llu", o.name.c_str(), (unsigned long long)seed, (unsigned long long)g, (unsigned long long)st().seed);
      auto I = o.inst(seed);
      if (k == 0 && I->cost >= 300) m = std::max(2, n / 4);
      I->reset(g);
      srand((unsigned)g);
#ifdef VH_MEMCHECK
      if (I->prints) { cover(I->input()); continue; }
      I->call();
      for (auto &s : I->spans)
        if (s.role != IN) {
          long bad = (long)VALGRIND_CHECK_MEM_IS_DEFINED(s.p, s.n);
          if (bad) viol(("undefined:" + o.name).c_str(), "%s: byte %ld of %zu of a result is not initialised", o.name.c_str(), bad - (long)s.p, s.n);
          cat("result bytes checked for definedness", (long long)s.n);
        }
#else
      I->call();
      std::cout.flush();
      I->reset(g + 1);
      size_t b0 = __sanitizer_get_current_allocated_bytes();
      I->call();
      std::cout.flush();
      size_t b1 = __sanitizer_get_current_allocated_bytes();
      if (b1 > b0) {  // a one-off allocation would not be repeated
        I->reset(g + 2);
        I->call();
        size_t b2 = __sanitizer_get_current_allocated_bytes();
        if (b2 > b1) viol(("leak:" + o.name).c_str(), "%s: every call leaves memory allocated (%zu, then %zu bytes)", o.name.c_str(), b1 - b0, b2 - b1);
      }
      cat("calls watched for leaks", 2);
#endif
      if (!I->inputs_intact()) viol(("input:" + o.name).c_str(), "%s: an input was modified", o.name.c_str());
      cover(I->input());
      cat("operation runs (" MODE ")");
      if (k == 0) cat("operations (template instances, " MODE ")");
    }
  }
  sample("%zu operations of group %d under " MODE, ops().size(), GROUP);
}
VH_MAIN(body)
