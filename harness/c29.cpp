// C29: inputs, reports and small utilities of the experiment programs.
#include <cmath>
#include <cassert>
#include "HEAAN/bootstrap.h"
#include "impl/message.h"
#include "impl/simple_plaintext.h"
#include "impl/plaintext.h"
#include "experiment/setup.h"
#define VH_HEAAN
#include "slot.h"
using namespace vh;
template <int LOGN> u64 hm_(const Message<LOGN> &p) { return hmix(hbytes(p.r, sizeof p.r, LOGN), hbytes(p.i, sizeof p.i)); }
static const ld PIL = 3.14159265358979323846264338327950288L;

template <int LOGN> void fixed_(u64 seed) {
  const int N = 1 << LOGN, H = N / 2;
  Rng r = rng_for("fixed", LOGN * 1000 + seed);
  auto z = mk<Message<LOGN>>(), w = mk<Message<LOGN>>();
  setcase("test message of %d slots", H);
  poison(z->v, r.next());
  set_test_message<LOGN>(z->v);
  for (int i = 0; i < H; i++) {
    C e = std::polar(sqrtl(0.5L), PIL * i / H);
    if (!(std::abs(C(z->v.r[i], z->v.i[i]) - e) <= 2e-15L)) { viol("test message", "slot %d is (%.17g,%.17g), expected (%.17Lg,%.17Lg)", i, z->v.r[i], z->v.i[i], e.real(), e.imag()); break; }
  }
  cover(hmix(LOGN, 1)); cat("test messages");
  setcase("modular reduction message of %d slots", H);
  poison(w->v, r.next());
  set_evalmod_message<LOGN>(w->v);
  for (int i = 0; i < H; i++) if (!(std::fabs(w->v.r[i] - (0.0001 + i % 24)) < 1e-12) || w->v.i[i] != 0) { viol("modular reduction message", "slot %d is (%.17g,%.17g)", i, w->v.r[i], w->v.i[i]); break; }
  cover(hmix(LOGN, 2)); cat("modular reduction messages");
  // rounded: exactly representable at the scale, at most the encoding error away
  for (int ld_ = 4; ld_ <= 50; ld_ += 1 + (int)r.below(5)) {
    u64 D = r.coin() ? 1ULL << ld_ : (1ULL << ld_) + r.below(1ULL << ld_);
    setcase("rounded test message of %d slots at scale %llu", H, (unsigned long long)D);
    poison(w->v, r.next());
    set_test_rounded_message<LOGN>(w->v, D);
    ld mx = 0;
    for (int i = 0; i < H; i++) mx = std::max(mx, std::abs(C(w->v.r[i], w->v.i[i]) - C(z->v.r[i], z->v.i[i])));
    if (!(mx <= 0.51L * N / D + 1e-14L * N)) viol("rounded message", "a slot moved by %.3Lg, at most %.3Lg is rounding", mx, 0.5L * N / D);
    // coefficients times the scale are integers
    ld tol = 1e-15L * N * D + 1e-9L;
    int step = std::max(1, N / 256);
    if (tol < 0.02L)
      for (int k = (int)r.below(step); k < N; k += step) {
        ld c = emb(N).coef(w->v.r, w->v.i, k) * D;
        if (!(fabsl(c - roundl(c)) <= tol)) { viol("rounded message", "coefficient %d times the scale is %.12Lg, not an integer", k, c); break; }
        cat("rounded coefficients checked");
      }
    cover(hmix(LOGN * 64 + 3, D)); cat("rounded messages");
  }
  if (!z->ok() || !w->ok()) viol("overrun", "write outside a message");
}
template <int LOGN, int K> void matrices(u64 seed) {
  const int N = 1 << LOGN, H = N / 2;
  Rng r = rng_for("mat", LOGN * 64 + K + seed * 4096);
  struct MM { Message<LOGN> m[K]; };
  auto A = mk<MM>(), B = mk<MM>();
  setcase("test matrix with %d diagonals of %d slots", K, H);
  poison(A->v, r.next());
  set_test_matrix<LOGN, K>(A->v.m);
  for (int k = 0; k < K; k++)
    for (int i = 0; i < H; i++) {
      C e = std::polar(sqrtl(0.5L), PIL * ((ld)k * i / H));
      if (!(std::abs(C(A->v.m[k].r[i], A->v.m[k].i[i]) - e) <= 2e-15L * (1 + k))) { viol("test matrix", "diagonal %d slot %d is (%.17g,%.17g), expected (%.17Lg,%.17Lg)", k, i, A->v.m[k].r[i], A->v.m[k].i[i], e.real(), e.imag()); k = K; break; }
    }
  cover(hmix(LOGN * 100 + K, 4)); cat("test matrices");
  setcase("random matrices with %d diagonals of %d slots seed %llu", K, H, (unsigned long long)st().seed);
  poison(A->v, r.next()); poison(B->v, r.next());
  set_random_matrix<LOGN, K>(A->v.m); set_random_matrix<LOGN, K>(B->v.m);
  std::map<u64, int> seen;
  for (int q = 0; q < 2; q++) for (auto &m : (q ? B : A)->v.m) {
    for (int i = 0; i < H; i++) if (!(std::fabs(m.r[i]) <= M_SQRT1_2 * (1 + 1e-15)) || !(std::fabs(m.i[i]) <= M_SQRT1_2 * (1 + 1e-15))) { viol("random matrix", "slot %d is (%.17g,%.17g)", i, m.r[i], m.i[i]); break; }
    if (seen[hm_(m)]++) viol("random matrix", "two diagonals are equal");
    if (hbytes(m.r, sizeof m.r) == hbytes(m.i, sizeof m.i)) viol("random matrix", "real and imaginary parts are equal");
    cover(hm_(m));
  }
  cat("random matrices", 2);
  if (!A->ok() || !B->ok()) viol("overrun", "write outside a matrix");
}
template <int LOGN> void random_(int reps) {
  const int H = 1 << (LOGN - 1);
  auto z = mk<Message<LOGN>>();
  Rng r = rng_for("rnd", LOGN);
  double n = 0, s1 = 0, s2 = 0, ri = 0, nb = 0, lag = 0;
  std::vector<double> hist(40, 0.0), sl(H, 0.0);
  std::map<u64, int> seen;
  for (int rep = 0; rep < reps; rep++) {
    setcase("random message %d of %d slots seed %llu", rep, H, (unsigned long long)st().seed);
    poison(z->v, r.next());
    set_random_message<LOGN>(z->v);
    for (int i = 0; i < H; i++) {
      double v[2] = {z->v.r[i] * M_SQRT2, z->v.i[i] * M_SQRT2};
      for (double x : v) {
        if (!(std::fabs(x) <= 1 + 1e-15)) { viol("random message", "slot %d holds %.17g", i, x / M_SQRT2); return; }
        n++; s1 += x; s2 += x * x; hist[std::min(39, (int)((x + 1) * 20))]++;
      }
      ri += v[0] * v[1]; nb++;
      sl[i] += v[0];
      if (i) lag += v[0] * z->v.r[i - 1] * M_SQRT2;
    }
    if (seen[hm_(z->v)]++) viol("random message", "the same message twice");
    cover(hm_(z->v)); cat("random messages");
  }
  setcase("%d random messages of %d slots", reps, H);
  double sd = std::sqrt(1.0 / 3 / n);
  if (std::fabs(s1 / n) > 9 * sd) viol("random message", "mean %.4g (standard deviation %.2g)", s1 / n, sd);
  if (std::fabs(s2 / n - 1.0 / 3) > 9 * std::sqrt(4.0 / 45 / n)) viol("random message", "mean square %.6g times 1/2, expected 1/3", s2 / n);
  if (std::fabs(ri / nb) > 9 / 3.0 / std::sqrt(nb)) viol("random message", "real and imaginary parts correlate: %.4g", ri / nb);
  if (H > 1 && std::fabs(lag / (nb * (H - 1) / H)) > 9 / 3.0 / std::sqrt(nb * (H - 1) / H)) viol("random message", "neighbouring slots correlate: %.4g", lag / nb);
  for (int i = 0; i < H; i++) if (std::fabs(sl[i] / reps) > 10 * std::sqrt(1.0 / 3 / reps)) { viol("random message", "slot %d has mean %.4g", i, sl[i] / reps); break; }
  if (n > 4000) for (int b = 0; b < 40; b++) if (std::fabs(hist[b] - n / 40) > 10 * std::sqrt(n / 40)) viol("random message", "%g of %g values in bin %d of 40", hist[b], n, b);
  if (!z->ok()) viol("overrun", "write outside a message");
}
// U0 factors of the inverse transform: conjugate transposes of those of the forward one
template <int LOGN> void factors() {
  const int H = 1 << (LOGN - 1);
  typedef SparseDiagonal<H, 3> SD;
  struct F { SD a[LOGN - 1]; };
  auto R = mk<F>(), I = mk<F>(), R0 = mk<F>(), I0 = mk<F>();
  Rng r = rng_for("factors", LOGN);
  setcase("transposed factor matrices of %d slots", H);
  poison(R->v, r.next()); poison(I->v, r.next());
  set_test_U0_matrix<LOGN>(R->v.a, I->v.a);
  splitU0NR<LOGN>(R0->v.a, I0->v.a);
  auto dense = [&](const SD &m) { std::vector<double> d((size_t)H * H, 0.0); for (int s = 0; s < 3; s++) if (!m.zero[s]) for (int i = 0; i < H; i++) d[(size_t)i * H + (i + m.off[s]) % H] += m.vec[s][i]; return d; };
  for (int n = 0; n < LOGN - 1; n++) {
    auto a = dense(R->v.a[n]), b = dense(I->v.a[n]), c = dense(R0->v.a[n]), d = dense(I0->v.a[n]);
    for (int i = 0; i < H; i++) for (int j = 0; j < H; j++)
      if (a[(size_t)i * H + j] != c[(size_t)j * H + i] || b[(size_t)i * H + j] != -d[(size_t)j * H + i]) {
        viol("factors", "factor %d entry (%d,%d) is (%.17g,%.17g), the conjugate of entry (%d,%d) is (%.17g,%.17g)", n, i, j, a[(size_t)i * H + j], b[(size_t)i * H + j], j, i, c[(size_t)j * H + i], -d[(size_t)j * H + i]);
        i = H; break;
      }
    cover(hmix(LOGN * 64 + n, 5)); cat("factor matrices");
  }
  // applied to slots one after the other they give N/2 times the coefficients in bit-reversed order
  auto z = mk<Message<LOGN>>(), u = mk<Message<LOGN>>(), t = mk<Message<LOGN>>();
  for (int rep = 0; rep < 3; rep++) {
    for (int i = 0; i < H; i++) { z->v.r[i] = r.sym(); z->v.i[i] = r.sym(); }
    u->v = z->v;
    for (int n = 0; n < LOGN - 1; n++) { t->v = u->v; matrix_vector_product<LOGN>(t->v, R->v.a[n], I->v.a[n], u->v); }
    for (int i = 0; i < H; i++) {
      int k = brev(i, LOGN - 1);
      C e(emb(2 * H).coef(z->v.r, z->v.i, k) * H, emb(2 * H).coef(z->v.r, z->v.i, k + H) * H);
      if (!(std::abs(C(u->v.r[i], u->v.i[i]) - e) <= 1e-14L * H)) { viol("factors", "product: slot %d is (%.17g,%.17g), expected (%.17Lg,%.17Lg)", i, u->v.r[i], u->v.i[i], e.real(), e.imag()); break; }
    }
    cover(hm_(z->v)); cat("vectors through all factors");
  }
}
template <int LOGN> void report(int reps) {
  const int H = 1 << (LOGN - 1);
  auto a = mk<Message<LOGN>>(), b = mk<Message<LOGN>>();
  Rng r = rng_for("report", LOGN);
  for (int rep = 0; rep < reps; rep++) {
    double er = 0, ei = 0;
    int how = (int)r.below(4), pr = (int)r.below(H), pi = (int)r.below(H);
    double sc = std::ldexp(1.0, -(int)r.below(45));
    for (int i = 0; i < H; i++) {
      a->v.r[i] = r.sym(); a->v.i[i] = r.sym();
      double dr = r.sym() * sc, di = r.sym() * sc;
      if (how == 1) { dr = i == pr ? dr : 0; di = i == pi ? di : 0; }        // one slot only
      if (how == 2) { dr = -std::fabs(dr); di = -std::fabs(di) * 1e-3; }      // all in one direction
      if (how == 3) di = i == pi ? di * 50 : di;
      b->v.r[i] = a->v.r[i] + dr; b->v.i[i] = a->v.i[i] + di;
      er = std::max(er, std::fabs(a->v.r[i] - b->v.r[i])); ei = std::max(ei, std::fabs(a->v.i[i] - b->v.i[i]));
    }
    if (er == 0 || ei == 0) continue;
    u64 ha = hm_(a->v), hb = hm_(b->v);
    setcase("report of the largest errors of %d slots, 2^%.6g and 2^%.6g, case %d seed %llu", H, std::log2(er), std::log2(ei), rep, (unsigned long long)st().seed);
    Capture cap;
    print_max_error<LOGN>(a->v, b->v);
    std::string s = cap.end();
    double x = 0, y = 0;
    size_t p = s.rfind('[');
    if (p == std::string::npos || sscanf(s.c_str() + p, "[ %lf , %lf ]", &x, &y) != 2) viol("report", "no error pair in '%s'", s.c_str());
    else if (!(std::fabs(x - std::log2(er)) <= 1e-4) || !(std::fabs(y - std::log2(ei)) <= 1e-4)) viol("report", "reported (%g, %g), the largest errors are 2^%.6g and 2^%.6g", x, y, std::log2(er), std::log2(ei));
    if (hm_(a->v) != ha || hm_(b->v) != hb) viol("operand", "the report changed a message");
    cover(hmix(ha, hb)); cat("error reports");
  }
}
static void utils() {
  Rng r = rng_for("utils", 0);
  for (int d = 1; d <= 32; d++) {
    u64 top = d >= 32 ? ~0ULL >> 32 : (1ULL << d) - 1;
    long n = d <= 14 ? (long)top + 1 : 20000;
    for (long i = 0; i < n; i++) {
      uint32_t x = d <= 14 ? (uint32_t)i : (uint32_t)(r.next() & top);
      u64 y = 0;
      for (int k = 0; k < d; k++) if (x >> k & 1) y |= 1ULL << (d - 1 - k);
      if (bitReverse(x, d) != (uint32_t)y) { setcase("bitReverse(%u,%d)", x, d); viol("bit reversal", "got %u, expected %llu", bitReverse(x, d), (unsigned long long)y); break; }
    }
    st().evals += n;
    cover(hmix(d, 7)); cat("bit reversals checked", n);
  }
  for (int l = 0; l <= 30; l++) { setcase("log(2^%d)", l); int g = ::log((int)(1 << l)); if (g != l) viol("log", "got %d", g); cover(hmix(l, 8)); cat("logarithms checked"); }
}
static void body() {
  int k = (int)scale(1, 12);
  for (int q = 0; q < k; q++) { fixed_<2>(q); fixed_<3>(q); fixed_<4>(q); fixed_<5>(q); fixed_<7>(q); fixed_<9>(q); fixed_<12>(q); if (q == 0) fixed_<15>(q); }
  for (int q = 0; q < k; q++) { matrices<2, 1>(q); matrices<3, 2>(q); matrices<4, 3>(q); matrices<5, 16>(q); matrices<7, 8>(q); matrices<10, 16>(q); matrices<4, 20>(q); }
  random_<2>(20000 * k); random_<3>(10000 * k); random_<5>(4000 * k); random_<8>(600 * k); random_<11>(100 * k);
  factors<2>(); factors<3>(); factors<4>(); factors<5>(); factors<6>(); factors<7>(); factors<8>(); factors<9>();
  report<2>(300 * k); report<4>(300 * k); report<8>(300 * k); report<11>(100 * k);
  utils();
  sample("%s", casebuf());
}
VH_MAIN(body)
