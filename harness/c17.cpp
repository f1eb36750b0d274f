// C17: sparse-diagonal matrices against full matrices. Entries are small integers so that every result is exact;
// a second pass uses arbitrary doubles within rounding.
#include <cmath>
#include <cassert>
#include <iostream>
#include "impl/message.h"
#include "vh.h"
using namespace vh;

typedef std::vector<std::vector<double>> Mat;
static Mat zeros(int n) { return Mat(n, std::vector<double>(n, 0.0)); }
static bool exact_mode = true;
static double val(Rng &r) {
  if (exact_mode) return r.below(4) ? (double)r.range(-9, 9) : 0.0;
  double m = r.sym();
  switch (r.below(4)) { case 0: return m; case 1: return m * 1e6; case 2: return std::ldexp(m, r.range(-40, 40)); default: return 0; }
}
template <int N, int S> u64 hsd(const SparseDiagonal<N, S> &a) {
  u64 h = N * 100 + S;
  for (int s = 0; s < S; s++) { h = hmix(h, a.off[s] * 2 + a.zero[s]); h = hbytes(a.vec[s], sizeof a.vec[s], h); }
  return h;
}
template <int N, int S> void offsets(Rng &r, int *off) {  // distinct
  std::vector<int> p(N);
  for (int i = 0; i < N; i++) p[i] = i;
  for (int i = 0; i < S; i++) std::swap(p[i], p[i + r.below(N - i)]);
  if (r.coin()) for (int i = 0; i < S; i++) if (p[i] == 0) std::swap(p[0], p[i]);
  if (r.coin()) std::sort(p.begin(), p.begin() + S);
  for (int i = 0; i < S; i++) off[i] = p[i];
}
// compare with the full matrix; tol[i][j] when not exact
template <int N, int S> void check(const SparseDiagonal<N, S> &a, const Mat &m, const Mat *tol, const char *key) {
  for (int s = 0; s < S; s++) if (a.zero[s])
    for (int i = 0; i < N; i++) if (a.vec[s][i] != 0) { viol("zero-flag", "%s: diagonal %d (offset %d) is marked empty but holds %g", key, s, a.off[s], a.vec[s][i]); return; }
  for (int s = 0; s < S; s++) if (a.off[s] < 0 || a.off[s] >= N) { viol("offset", "%s: offset %d out of range", key, a.off[s]); return; }
  // no two live diagonals may claim the same entries (the first would hide the second)
  for (int s = 0; s < S; s++) for (int t = 0; t < s; t++) if (a.off[s] == a.off[t] && !(a.zero[s]) && !(a.zero[t])) {
    viol("duplicate", "%s: two live diagonals with offset %d", key, a.off[s]); return; }
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) {
    double g = a.get_element(i, j), w = m[i][j];
    bool ok = tol ? std::fabs(g - w) <= (*tol)[i][j] * 1e-14 : g == w;
    if (!ok || g != g) { viol(key, "%s: element (%d,%d) is %.17g, full matrix has %.17g", key, i, j, g, w); return; }
  }
}
static Mat mmul(const Mat &a, const Mat &b, bool absv = false) {
  int n = (int)a.size();
  Mat c = zeros(n);
  for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) if (a[i][k] != 0) for (int j = 0; j < n; j++) c[i][j] += absv ? std::fabs(a[i][k] * b[k][j]) : a[i][k] * b[k][j];
  return c;
}
static Mat madd(const Mat &a, const Mat &b, double f) { Mat c = a; for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a.size(); j++) c[i][j] += f * b[i][j]; return c; }

// random matrix with given offsets; marked-empty diagonals hold nothing
template <int N, int S> void fill(Rng &r, SparseDiagonal<N, S> &a, const int *off, Mat &m, bool viaset) {
  a.setzero();
  for (int s = 0; s < S; s++) a.off[s] = off[s];
  m = zeros(N);
  for (int s = 0; s < S; s++) {
    int mode = (int)r.below(5);
    if (mode == 0) continue;  // stays empty
    if (viaset) {
      for (int i = 0; i < N; i++) {
        double v = val(r);
        if (mode == 1 && i != (int)(r.s % N)) continue;
        int j = (i + off[s]) % N;
        a.set_element(i, j, v);
        m[i][j] = v;
      }
    } else {
      a.zero[s] = false;
      for (int i = 0; i < N; i++) { a.vec[s][i] = val(r); m[i][(i + off[s]) % N] = a.vec[s][i]; }
    }
  }
}
template <int N, int S> struct Reg { SparseDiagonal<N, S> a; Mat m; int off[S]; };

template <int N, int S> void programs() {
  exact_mode = true;
  Rng r = rng_for("prog", N * 64 + S);
  for (int rep = 0; rep < (int)scale(150, 4000); rep++) {
    auto R = std::make_unique<Guarded<Reg<N, S>[4]>>();
    auto &g = R->v;
    int off[S];
    offsets<N, S>(r, off);
    for (auto &x : g) { poison(x.a, 0); memset((void *)&x.a, 0x11, sizeof x.a); std::copy(off, off + S, x.off); fill<N, S>(r, x.a, off, x.m, r.coin()); }
    std::string log;
    for (int st = 0; st < 30; st++) {
      int d = (int)r.below(4), o = (int)r.below(4);
      Reg<N, S> &D = g[d], &O = g[o];
      bool sameoff = std::equal(D.off, D.off + S, O.off);
      u64 ho = hsd(O.a);
      char what[64];
      int op = (int)r.below(9);
      switch (op) {
        case 0: case 1: if (!sameoff) { O = D; ho = hsd(O.a); }
          snprintf(what, sizeof what, "r%d%sr%d", d, op ? "-=" : "+=", o);
          setcase("N=%d S=%d %s %s", N, S, log.c_str(), what);
          if (op == 0) { D.a += O.a; D.m = madd(D.m, O.m, 1); } else { D.a -= O.a; Mat om = O.m; D.m = madd(D.m, om, -1); }
          break;
        case 2: { double f = (double)r.range(-2, 2); snprintf(what, sizeof what, "r%d*=%g", d, f); D.a *= f; for (auto &x : D.m) for (auto &y : x) y *= f; break; }
        case 3: snprintf(what, sizeof what, "r%d.negate", d); D.a.negate(); for (auto &x : D.m) for (auto &y : x) y = -y; break;
        case 4: {
          snprintf(what, sizeof what, "r%d.transpose", d);
          setcase("N=%d S=%d offsets %d.. %s %s", N, S, D.off[0], log.c_str(), what);
          D.a.transpose();
          Mat t = zeros(N);
          for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) t[j][i] = D.m[i][j];
          D.m = t;
          for (int s = 0; s < S; s++) D.off[s] = (N - D.off[s]) % N;
          break;
        }
        case 5: snprintf(what, sizeof what, "r%d=r%d", d, o); D.a = O.a; D.m = Mat(O.m); std::copy(O.off, O.off + S, D.off); break;
        case 6: {
          int s = (int)r.below(S), i = (int)r.below(N), j = (i + D.off[s]) % N;
          double v = val(r);
          snprintf(what, sizeof what, "r%d[%d][%d]=%g", d, i, j, v);
          D.a.set_element(i, j, v); D.m[i][j] = v;
          break;
        }
        case 7: {
          if (r.below(3)) { what[0] = 0; break; }
          snprintf(what, sizeof what, "r%d.setzero", d);
          D.a.setzero(); D.m = zeros(N);
          check<N, S>(D.a, D.m, nullptr, "setzero");
          for (int s = 0; s < S; s++) { if (!D.a.zero[s]) viol("zero-flag", "setzero left a diagonal unmarked"); D.a.off[s] = D.off[s]; }
          break;
        }
        default: {  // refill one whole diagonal
          int s = (int)r.below(S);
          snprintf(what, sizeof what, "r%d.diag%d", d, s);
          for (int i = 0; i < N; i++) { double v = val(r); D.a.set_element(i, (i + D.off[s]) % N, v); D.m[i][(i + D.off[s]) % N] = v; }
        }
      }
      log += what; log += ";";
      if (log.size() > 600) log.erase(0, 200);
      setcase("N=%d S=%d %s", N, S, log.c_str());
      for (int x = 0; x < 4; x++) check<N, S>(g[x].a, g[x].m, nullptr, "program");
      if (o != d && hsd(O.a) != ho) viol("operand", "operand r%d changed", o);
      for (int s = 0; s < S; s++) if (D.a.off[s] != D.off[s]) viol("offset", "offset %d of r%d is %d, expected %d", s, d, D.a.off[s], D.off[s]);
      cover(hmix(hsd(D.a), hmix(hsd(O.a), op)), S > 0);
      cat("program steps");
      // bound the entries
      double mx = 0;
      for (auto &x : D.m) for (double y : x) mx = std::max(mx, std::fabs(y));
      if (mx > 1e12) fill<N, S>(r, D.a, D.off, D.m, true);
    }
    if (!R->ok()) viol("overrun", "write outside the matrices");
  }
}
template <int N, int S1, int S2> void products() {
  Rng r = rng_for("prod", (N * 64 + S1) * 64 + S2);
  for (int rep = 0; rep < (int)scale(N > 32 ? 60 : 400, N > 32 ? 1000 : 12000); rep++) {
    exact_mode = rep % 3 != 2;
    auto A = std::make_unique<Guarded<SparseDiagonal<N, S1>[2]>>();
    auto B = std::make_unique<Guarded<SparseDiagonal<N, S2>[2]>>();
    auto C = std::make_unique<Guarded<SparseDiagonal<N, S1 * S2>[2]>>();
    int o1[S1], o2[S2];
    offsets<N, S1>(r, o1); offsets<N, S2>(r, o2);
    if (rep % 4 == 1) for (int i = 0; i < std::min(S1, S2); i++) {  // make offsets coincide after multiplication
      o2[i] = (N - o1[i]) % N;
    }
    { std::vector<int> seen; bool dup = false; for (int i = 0; i < S2; i++) { if (std::count(seen.begin(), seen.end(), o2[i])) dup = true; seen.push_back(o2[i]); } if (dup) offsets<N, S2>(r, o2); }
    Mat ar, ai, br, bi;
    fill<N, S1>(r, A->v[0], o1, ar, r.coin()); fill<N, S1>(r, A->v[1], o1, ai, r.coin());
    fill<N, S2>(r, B->v[0], o2, br, r.coin()); fill<N, S2>(r, B->v[1], o2, bi, r.coin());
    setcase("MatMul N=%d %dx%d diagonals, offsets A %d.. B %d.., rep %d seed %llu", N, S1, S2, o1[0], o2[0], rep, (unsigned long long)st().seed);
    u64 h = hmix(hmix(hsd(A->v[0]), hsd(A->v[1])), hmix(hsd(B->v[0]), hsd(B->v[1])));
    auto inputs = [&] { return hmix(hmix(hsd(A->v[0]), hsd(A->v[1])), hmix(hsd(B->v[0]), hsd(B->v[1]))); };
    // real
    memset((void *)&C->v, rep % 2 ? 0x01 : 0x00, sizeof C->v);
    for (auto &c : C->v) for (auto &v : c.vec) for (double &x : v) x = 1e300 * (rep % 5 - 2);
    MatMul<N, S1, S2>(A->v[0], B->v[0], C->v[0]);
    Mat w = mmul(ar, br), t = mmul(ar, br, true);
    check<N, S1 * S2>(C->v[0], w, exact_mode ? nullptr : &t, "real product");
    cover(hmix(h, 1), true);
    cat("real products");
    // complex
    for (auto &c : C->v) for (auto &v : c.vec) for (double &x : v) x = -7e200;
    for (auto &c : C->v) for (auto &z : c.zero) z = false;
    for (auto &c : C->v) for (auto &z : c.off) z = 12345;
    MatMul<N, S1, S2>(A->v[0], A->v[1], B->v[0], B->v[1], C->v[0], C->v[1]);
    Mat wr = madd(mmul(ar, br), mmul(ai, bi), -1), wi = madd(mmul(ar, bi), mmul(ai, br), 1);
    Mat tr = madd(mmul(ar, br, true), mmul(ai, bi, true), 1), ti = madd(mmul(ar, bi, true), mmul(ai, br, true), 1);
    check<N, S1 * S2>(C->v[0], wr, exact_mode ? nullptr : &tr, "complex product, real part");
    check<N, S1 * S2>(C->v[1], wi, exact_mode ? nullptr : &ti, "complex product, imaginary part");
    for (int s = 0; s < S1 * S2; s++) if (C->v[0].off[s] != C->v[1].off[s]) { viol("offset", "real and imaginary part of a product disagree on offset %d", s); break; }
    // a diagonal both parts of which are live must be seen by consumers that test either flag
    cover(hmix(h, 2), true);
    cat("complex products");
    if (inputs() != h) viol("operand", "MatMul changed an operand");
    if (!A->ok() || !B->ok() || !C->ok()) viol("overrun", "MatMul wrote outside its result");
  }
}
template <int N, int S1, int S2> void clutter() {
  Rng r = rng_for("clut", (N * 64 + S1) * 64 + S2);
  exact_mode = true;
  for (int rep = 0; rep < (int)scale(200, 4000); rep++) {
    auto A = std::make_unique<Guarded<SparseDiagonal<N, S1>>>();
    auto B = std::make_unique<Guarded<SparseDiagonal<N, S2>>>();
    int o1[S1];
    offsets<N, S1>(r, o1);
    Mat m;
    fill<N, S1>(r, A->v, o1, m, r.coin());
    for (int s = S2; s < S1; s++) {
      for (int i = 0; i < N; i++) { m[i][(i + o1[s]) % N] = 0; A->v.vec[s][i] = 0; }
      A->v.zero[s] = true;
    }
    setcase("RemoveClutter N=%d %d to %d diagonals", N, S1, S2);
    u64 h = hsd(A->v);
    memset((void *)&B->v, 0x01, sizeof B->v);
    RemoveClutter<N, S1, S2>(A->v, B->v);
    check<N, S2>(B->v, m, nullptr, "RemoveClutter");
    if (hsd(A->v) != h) viol("operand", "RemoveClutter changed its input");
    if (!B->ok()) viol("overrun", "RemoveClutter wrote outside its result");
    cover(h, true);
    cat("clutter removals");
  }
}
// product of several factors as the grouped transforms use them: (S^2), then (S^3), including the empty tails
template <int N, int S> void chains() {
  Rng r = rng_for("chain", N * 64 + S);
  exact_mode = true;
  for (int rep = 0; rep < (int)scale(60, 1500); rep++) {
    typedef SparseDiagonal<N, S> X; typedef SparseDiagonal<N, S * S> Y; typedef SparseDiagonal<N, S * S * S> W;
    std::vector<X> a(6);
    Mat m[6];
    int o[3][S];
    for (int k = 0; k < 3; k++) { offsets<N, S>(r, o[k]); fill<N, S>(r, a[2 * k], o[k], m[2 * k], true); fill<N, S>(r, a[2 * k + 1], o[k], m[2 * k + 1], true); }
    std::vector<Y> y(2); std::vector<W> w(2);
    setcase("chain of three factors N=%d S=%d rep %d", N, S, rep);
    MatMul<N, S, S>(a[0], a[1], a[2], a[3], y[0], y[1]);
    Mat yr = madd(mmul(m[0], m[2]), mmul(m[1], m[3]), -1), yi = madd(mmul(m[0], m[3]), mmul(m[1], m[2]), 1);
    MatMul<N, S, S * S>(a[4], a[5], y[0], y[1], w[0], w[1]);
    Mat wr = madd(mmul(m[4], yr), mmul(m[5], yi), -1), wi = madd(mmul(m[4], yi), mmul(m[5], yr), 1);
    check<N, S * S * S>(w[0], wr, nullptr, "chain, real part");
    check<N, S * S * S>(w[1], wi, nullptr, "chain, imaginary part");
    // the other association
    MatMul<N, S * S, S>(y[0], y[1], a[4], a[5], w[0], w[1]);
    wr = madd(mmul(yr, m[4]), mmul(yi, m[5]), -1); wi = madd(mmul(yr, m[5]), mmul(yi, m[4]), 1);
    check<N, S * S * S>(w[0], wr, nullptr, "chain, real part");
    check<N, S * S * S>(w[1], wi, nullptr, "chain, imaginary part");
    // transposed result
    w[0].transpose();
    Mat t = zeros(N);
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) t[j][i] = wr[i][j];
    check<N, S * S * S>(w[0], t, nullptr, "transposed chain");
    cover(hmix(hsd(w[0]), hsd(w[1])), true);
    cat("chained products");
  }
}
template <int LOGN, int S> void vectors() {
  const int N = 1 << (LOGN - 1);
  Rng r = rng_for("vec", LOGN * 64 + S);
  for (int rep = 0; rep < (int)scale(400, 10000); rep++) {
    exact_mode = rep % 3 != 2;
    auto A = std::make_unique<Guarded<SparseDiagonal<N, S>[2]>>();
    auto z = std::make_unique<Guarded<Message<LOGN>>>(), y = std::make_unique<Guarded<Message<LOGN>>>();
    int o[S];
    offsets<N, S>(r, o);
    Mat ar, ai;
    fill<N, S>(r, A->v[0], o, ar, r.coin()); fill<N, S>(r, A->v[1], o, ai, r.coin());
    for (int i = 0; i < N; i++) { z->v.r[i] = val(r); z->v.i[i] = val(r); y->v.r[i] = 1e99; y->v.i[i] = -1e99; }
    std::vector<double> wr(N, 0), wi(N, 0), t(N, 0);
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) {
      wr[i] += ar[i][j] * z->v.r[j] - ai[i][j] * z->v.i[j];
      wi[i] += ar[i][j] * z->v.i[j] + ai[i][j] * z->v.r[j];
      t[i] += (std::fabs(ar[i][j]) + std::fabs(ai[i][j])) * (std::fabs(z->v.r[j]) + std::fabs(z->v.i[j]));
    }
    u64 h = hmix(hmix(hsd(A->v[0]), hsd(A->v[1])), hbytes(&z->v, sizeof z->v));
    auto chk = [&](const double *gr, const double *gi, const char *what) {
      for (int i = 0; i < N; i++) {
        double tol = exact_mode ? 0 : t[i] * 1e-14;
        if (!(std::fabs(gr[i] - wr[i]) <= tol) || !(std::fabs(gi[i] - wi[i]) <= tol)) { viol(what, "%s: entry %d is (%.17g,%.17g), full product gives (%.17g,%.17g)", what, i, gr[i], gi[i], wr[i], wi[i]); return; }
      }
    };
    setcase("matrix-vector product N=%d S=%d rep %d offsets %d..", N, S, rep, o[0]);
    matrix_vector_product<LOGN, S>(z->v, A->v[0], A->v[1], y->v);
    chk(y->v.r, y->v.i, "message matrix-vector product");
    cat("matrix-vector products");
    if constexpr (S == 3) {
      double pr[N + 2], pi[N + 2];
      pr[N] = pi[N] = 42;
      matrix_vector_product<LOGN>(z->v.r, z->v.i, A->v[0], A->v[1], pr, pi);
      chk(pr, pi, "matrix-vector product");
      if (pr[N] != 42 || pi[N] != 42) viol("overrun", "matrix-vector product wrote outside its result");
      cat("matrix-vector products");
    }
    if (hmix(hmix(hsd(A->v[0]), hsd(A->v[1])), hbytes(&z->v, sizeof z->v)) != h) viol("operand", "a matrix-vector product changed its input");
    if (!y->ok() || !A->ok() || !z->ok()) viol("overrun", "matrix-vector product wrote outside its result");
    cover(h, true);
  }
}
static void body() {
#if CHUNK == 0
  programs<1, 1>(); programs<2, 1>(); programs<2, 2>(); programs<3, 2>(); programs<4, 1>(); programs<4, 3>(); programs<4, 4>(); programs<5, 3>(); programs<8, 3>(); programs<8, 8>();
  programs<16, 3>(); programs<16, 5>(); programs<32, 9>(); programs<64, 3>(); programs<6, 4>();
  clutter<4, 3, 2>(); clutter<8, 4, 1>(); clutter<8, 6, 3>(); clutter<16, 9, 5>(); clutter<32, 27, 7>();
#else
  products<1, 1, 1>(); products<2, 1, 2>(); products<2, 2, 2>(); products<4, 1, 1>(); products<4, 3, 3>(); products<4, 4, 2>(); products<8, 3, 3>(); products<8, 3, 1>(); products<8, 2, 5>();
  products<16, 3, 3>(); products<16, 9, 3>(); products<32, 3, 9>(); products<64, 3, 3>(); products<6, 3, 2>(); products<12, 2, 3>(); products<128, 3, 3>();
  chains<4, 3>(); chains<8, 3>(); chains<16, 3>(); chains<32, 2>(); chains<2, 2>();
  vectors<2, 1>(); vectors<2, 2>(); vectors<3, 3>(); vectors<3, 2>(); vectors<4, 3>(); vectors<4, 5>(); vectors<5, 3>(); vectors<6, 9>(); vectors<8, 3>(); vectors<4, 1>();
#endif
  sample("%s", casebuf());
}
VH_MAIN(body)
