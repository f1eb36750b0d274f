// C30: the experiment programs: predictions against their formulas, measurements against what the procedures must give.
#include <sstream>
// a template: what the program would instantiate is only built when called; `auto`: with or without a return statement
#define main(...) unused_main(); template <int> static auto program_main(__VA_ARGS__)
#if PROG == 0
#include "../src/experiment/section3/lemma_conv_error.cpp"
#elif PROG == 1
#include "../src/experiment/section3/lemma_conv_sum_error.cpp"
#elif PROG == 2
#include "../src/experiment/section3/theorem_single_matmul_error.cpp"
#elif PROG == 3
#include "../src/experiment/section3/theorem_serial_matmul_error.cpp"
#elif PROG == 4
#include "../src/experiment/section3/theorem_cts_error.cpp"
#elif PROG == 5
#include "../src/experiment/section4/example_sup_norm.cpp"
#elif PROG == 6
#include "../src/experiment/section4/measure_b_evalmod.cpp"
#elif PROG == 7
#include "../src/experiment/section4/design_delta_tilde.cpp"
#elif PROG == 8
#include "../src/experiment/section4/design_delta_tilde_lattigo.cpp"
#else
#include "../src/experiment/section4/proposal.cpp"
#endif
#undef main
#include "emb.h"

typedef long double ld;
namespace {
struct Out {
  std::vector<std::pair<std::string, double>> named;  // "label : number"
  std::vector<double> plain;                          // lines holding one number
  std::string text;
  double get(const char *key, int nth = 0) const {
    for (auto &p : named) if (p.first == key && nth-- == 0) return p.second;
    return NAN;
  }
};
template <class F> Out run_(const std::string &what_, F f) {
  const char *what = what_.c_str();
  vh::setcase("%s seed %llu", what, (unsigned long long)vh::st().seed);
  srand((unsigned)vh::rng_for(what, 1).next());
  std::cout.flush();
  vh::Capture cap;
  f();
  std::cout.flush();
  Out o;
  o.text = cap.end();
  std::istringstream is(o.text);
  std::string l;
  while (std::getline(is, l)) {
    size_t p = l.rfind(" : ");
    char *e;
    if (p != std::string::npos) {
      double v = strtod(l.c_str() + p + 3, &e);
      if (*e == 0) o.named.emplace_back(l.substr(0, p), v);
    } else if (!l.empty()) {
      double v = strtod(l.c_str(), &e);
      if (*e == 0) o.plain.push_back(v);
    }
  }
  vh::cover(vh::hstr(o.text.c_str()), true);
  vh::cat("procedures run");
  vh::sample("%s", vh::casebuf());
  return o;
}
// a predicted figure: six printed digits
void same_(const char *what, double got, ld want) {
  if (!(std::fabs(got - (double)want) <= 2e-5 * std::fabs((double)want))) vh::viol("prediction", "%s is reported as %.9g, the formula gives %.9Lg", what, got, want);
  vh::cat("predictions checked");
}
void in_(const char *what, double got, ld lo, ld hi) {
  if (!(got >= lo && got <= hi)) vh::viol("measurement", "%s is reported as %.9g, must lie between %.6Lg and %.6Lg", what, got, lo, hi);
  vh::cat("measurements checked");
}
// square sum of the coefficients of the test message, exp(I*pi*j/(N/2))/sqrt(2) in slot j, at scale 2^50
template <int LN> ld testsq() {
  const int n = 1 << LN;
  const ld P = 3.14159265358979323846264338327950288L;
  std::vector<double> a(n / 2), b(n / 2);
  std::vector<ld> m(n);
  for (int i = 0; i < n / 2; i++) { a[i] = (double)(cosl(P * i / (n / 2)) * sqrtl(0.5L)); b[i] = (double)(sinl(P * i / (n / 2)) * sqrtl(0.5L)); }
  vh::emb(n).inv(a.data(), b.data(), m.data());
  ld s = 0;
  for (auto x : m) { ld c = roundl(x * 0x1p50L); s += c * c; }
  return s;
}
ld norm0(int n) { return sqrtl(n / 4.0L); }  // of the test message: n/2 slots of size sqrt(1/2)
#define RUN(...) run_(std::string(__PRETTY_FUNCTION__) + ": " #__VA_ARGS__, [] { __VA_ARGS__; })

#if PROG <= 1
template <int LN> void one() {
#if PROG == 0
  Out o = RUN((measure_conv_error<LN>()));
  ld want = testsq<LN>() * (1 << LN) / 12;
#else
  Out o = RUN((measure_conv_sum_error<LN>()));
  ld want = testsq<LN>() * (1 << LN) / 12 * 16;
#endif
  same_("the expected square sum", o.plain.empty() ? NAN : o.plain[0], want);
  if (o.plain.size() != 101) vh::viol("measurement", "%zu lines of numbers, expected 101", o.plain.size());
  double avg = 0;
  for (size_t i = 1; i < o.plain.size(); i++) { avg += o.plain[i] / (o.plain.size() - 1); in_("a measured square sum", o.plain[i] / (double)want, LN >= 8 ? 0.5L : 0.2L, LN >= 8 ? 1.8L : 3); }
  in_("the average measured square sum", avg / (double)want, 0.8L, 1.25L);
  in_("LOGN", o.get("LOGN"), LN, LN);
}
void body() { one<6>(); one<7>(); one<8>(); one<9>(); one<10>(); if (vh::thorough()) { one<11>(); one<12>(); one<13>(); } }
#elif PROG == 2
template <int LN> void one() {
  Out o = RUN((measure_single_matmul_error<LN>()));
  ld want = sqrtl(16.0L * (1 << LN) / 12) * norm0(1 << LN) / 0x1p50L;
  same_("the expected error", o.plain.empty() ? NAN : o.plain[0], want);
  if (o.plain.size() != 101) vh::viol("measurement", "%zu lines of numbers, expected 101", o.plain.size());
  double avg = 0;
  for (size_t i = 1; i < o.plain.size(); i++) { avg += o.plain[i] / (o.plain.size() - 1); in_("a measured error", o.plain[i] / (double)want, 0.5L, 1.8L); }
  in_("the average measured error", avg / (double)want, 0.8L, 1.25L);
}
void body() { one<6>(); one<7>(); if (vh::thorough()) { one<8>(); one<9>(); one<10>(); } }
#elif PROG == 3
template <int LN> void one() {
  const int D = LN - 1;
  Out o = RUN((measure_serial_matmul_error<LN>()));
  ld want = sqrtl(3.0L * (1 << LN) / 12) * norm0(1 << LN) / 0x1p50L * sqrtl(D) * powl(2, (D - 1) / 2.0L);
  same_("the expected error", o.plain.size() > 0 ? o.plain[0] : NAN, want);
  same_("the bound", o.plain.size() > 1 ? o.plain[1] : NAN, want * sqrtl(D));
  if (o.plain.size() != 3) vh::viol("measurement", "%zu lines of numbers, expected 3", o.plain.size());
  else in_("the measured error", o.plain[2] / (double)want, 0.08L, 1.2L);
}
void body() { one<5>(); one<6>(); one<7>(); one<8>(); one<9>(); one<10>(); if (vh::thorough()) { one<11>(); one<12>(); one<13>(); } }
#elif PROG == 4
template <int LN, int LB, int GG> void one() {
  const int n = 1 << LN, D = (LN - 1) / GG;
  Out o = RUN((measure_cts_error<LN, LB, GG>()));
  ld diag = powl(3, GG), C1 = D * sqrtl(129 * diag) / 12 * powl(2, 1.0L / (2 * D));
  same_("C1", o.get("C1"), C1);
  ld zn = sqrtl(n / 2) * sqrtl(129.0L / 12 * n) * 1024;
  same_("the expected norm of the raised message", o.get("norm(z_amb) expected"), zn);
  in_("the norm of the raised message", o.get("norm(z_amb) measured") / (double)zn, 0.6L, 1.5L);
  ld e = C1 * ldexpl(1, -LB) * powl(n, 1 + 1.0L / (2 * D)) * 1024;
  same_("the expected error", o.get("norm(e) expected"), e);
  same_("the expected error (second form)", o.get("norm(e) expected (sanity check)"), e);
  in_("the measured error", o.get("norm(e) measured") / (double)e, 0.04L, 1.2L);
  in_("LOGN", o.get("LOGN"), LN, LN); in_("LOGDELTA_boot_tilde", o.get("LOGDELTA_boot_tilde"), LB, LB); in_("G", o.get("G"), GG, GG);
}
void body() { one<7, 40, 3>(); one<7, 30, 2>(); one<7, 25, 1>(); one<9, 50, 2>(); one<9, 25, 4>(); if (vh::thorough()) { one<8, 33, 1>(); one<10, 35, 3>(); one<11, 45, 2>(); } }
#elif PROG == 5
template <int LN> void sup() {
  Out o = RUN((check_sup_norm_bound<LN>()));
  double r = o.get("max sup_norm / avg_norm ratio");
  // 100 vectors of n nearly normal coefficients
  in_("the largest ratio", r, sqrtl(2 * logl(100.0L * (1 << LN))) - 1.2L, sqrtl(2 * logl(100.0L * (1 << LN))) + 2);
  in_("C2 measured", o.get("C2(empirical)"), ceil(r - 1e-4), ceil(r + 1e-4));
  in_("C2", o.get("C2"), 5, 5);
}
template <int LN, int LB, int GG> void one() {
  const int n = 1 << LN, D = (LN - 1) / GG;
  Out o = RUN((measure_sup_norm<LN, LB, GG>()));
  ld diag = powl(3, GG), C1 = D * sqrtl(129 * diag) / 12 * powl(2, 1.0L / (2 * D));
  same_("C1", o.get("C1"), C1);
  // slots uniform in the square of side sqrt(2): mean square 1/3 per slot, so 1/(3n)*... per coefficient
  ld cn = sqrtl(2.0L / n * (n / 2) * (1.0L / 3));
  in_("the bound on the coefficients", o.get("sup_norm(pt) bounded") / (double)(cn / sqrtl(n) * 5), 0.6L, 1.5L);
  in_("the largest coefficient", o.get("sup_norm(pt) measured") / (double)(cn / sqrtl(n)), 1.8L, 7);
  ld e = C1 * ldexpl(1, -LB) * powl(n, 1 + 1.0L / (2 * D)) * 1024;
  same_("the expected error", o.get("norm(rounding error) expected"), e);
  double m = o.get("norm(rounding error) measured");
  in_("the measured error", m / (double)e, 0.04L, 1.2L);
  same_("the bound on the largest error", o.get("sup_norm(rounding error) bounded"), e / sqrtl(n) * 5);
  in_("the largest error", o.get("sup_norm(rounding error) measured") / m, 1.2L / sqrtl(n), 1);
}
void body() { sup<6>(); sup<9>(); sup<11>(); one<7, 40, 3>(); one<7, 30, 1>(); one<9, 50, 2>(); if (vh::thorough()) { sup<13>(); one<9, 25, 4>(); one<10, 35, 3>(); } }
#elif PROG == 6
template <int LN> void one() {
  Out o = RUN((measure_b_evalmod<LN>()));
  in_("the error", o.get("sup_norm"), 1e-13L, 0x1p-20L);
}
void body() { one<9>(); if (vh::thorough()) { one<9>(); one<10>(); } }
#elif PROG == 7
template <int LN, int GG> void one() {
  const int n = 1 << LN, D = (LN - 1) / GG;
  Out o = RUN((design_delta_tilde<LN, GG>()));
  ld C1 = D * sqrtl(129 * powl(3, GG)) / 12 * powl(2, 1.0L / (2 * D)), sim = C1 * powl(n, 1 + 1.0L / (2 * D)) * 1024, tight = floorl(sim / (sqrtl(n) / 5 - 1));
  same_("C1", o.get("C1"), C1);
  in_("C2", o.get("C2"), 5, 5);
  in_("scale for equal error", o.get("Delta_tilde (value is similar to rounding error)"), ceill(log2l(sim) - 1e-9L), ceill(log2l(sim) + 1e-9L));
  in_("epsilon", o.get("given epsilon (max distance from multiple of q / Delta)"), 1, 1);
  in_("scale for small error", o.get("Delta_tilde (value + rounding error < epsilon = 1)"), ceill(log2l(tight) - 1e-9L), ceill(log2l(tight) + 1e-9L));
  in_("LOGN", o.get("LOGN"), LN, LN); in_("G", o.get("G"), GG, GG);
}
void body() { one<9, 2>(); one<13, 3>(); one<17, 4>(); one<7, 1>(); one<7, 2>(); one<7, 3>(); one<9, 1>(); one<9, 4>(); one<10, 3>(); one<11, 2>(); one<12, 1>(); one<13, 4>(); one<13, 2>(); one<15, 2>(); one<16, 3>(); one<17, 2>(); }
#elif PROG == 8
void body() {
  Out o = RUN((program_main<0>()));
  ld n = 65536, u = sqrtl(2) / powl(n, 1.0L / 15), zn = sqrtl(n / 2) / 0x1p50L * sqrtl(193.0L / 12 * n) * 0x1p60L, c = 0;
  int g[4] = {4, 4, 4, 3};
  for (int i = 0; i < 4; i++) { ld t = sqrtl(powl(3, g[i]) * n / 12) * 0x1p-34L; for (int j = 0; j < 4; j++) if (j != i) t *= powl(u, g[j]); c += t; }
  in_("LOGDELTA_boot_tilde", o.get("LOGDELTA_boot_tilde"), 34, 34);
  same_("the expected error", o.get("error expected"), zn * c * 2 * 5 / sqrtl(n));
  same_("the wanted error", o.get("we want error goes under"), 0x1p-15L * 1024 / 2);
}
#else
void report(const Out &o, int lost, int consumed, int cts, int stc, int LN) {
  double re = NAN, im = NAN;
  size_t p = o.text.find('[');
  if (p == std::string::npos || sscanf(o.text.c_str() + p, "[%lf, %lf]", &re, &im) != 2) vh::viol("measurement", "no error pair in the report");
  double sn = o.get("sup_norm(pt/Delta - pt_tilde/Delta)");
  if (lost) { in_("log2 of the largest error", std::max(re, im), -8, 12); in_("the largest coefficient error", sn, 0x1p-14L, 512); }
  else { in_("log2 of the largest real error", re, -45, -22); in_("log2 of the largest imaginary error", im, -45, -22); in_("the largest coefficient error", sn, 0x1p-45L, 0x1p-26L); }
  in_("Modulus consumed", o.get("Modulus consumed"), consumed, consumed);
  in_("LOGN", o.get("LOGN"), LN, LN); in_("LOGDELTA_cts", o.get("LOGDELTA_cts"), cts, cts); in_("LOGDELTA_stc", o.get("LOGDELTA_stc"), stc, stc);
}
template <int LN, int C_, int S_, int GG> void conventional(int lost) { Out o = RUN((conventional_bootstrap_test<LN, C_, S_, GG>())); report(o, lost, (LN - 1) / GG * (C_ + S_) + 720, C_, S_, LN); }
template <int LN, int C_, int S_, int GG> void proposed() { Out o = RUN((proposed_bootstrap_test<LN, C_, S_, GG>())); report(o, 0, (LN - 1) / GG * (C_ + S_) + 720, C_, S_, LN); }
void body() {
#if PROG == 9
  proposed<7, 25, 60, 3>(); conventional<7, 60, 50, 3>(0); proposed<7, 22, 60, 2>();
#elif PROG == 10
  conventional<9, 22, 50, 2>(1); 
#elif PROG == 11
  proposed<9, 22, 60, 2>();
#elif PROG == 12
  conventional<9, 60, 50, 2>(0);
#else
  if (vh::thorough()) { proposed<9, 60, 60, 2>(); proposed<8, 24, 60, 1>(); conventional<10, 60, 50, 3>(0); proposed<10, 23, 60, 3>(); }
#endif
}
#endif
}  // namespace
VH_MAIN(body)
