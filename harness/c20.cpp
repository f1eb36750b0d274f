// C20: homomorphic polynomial evaluation (degree 3 to 127) against long-double evaluation at the exact slots.
#include <cmath>
#include "HEAAN/poly.h"
#define VH_HEAAN
#include "slot.h"
using namespace vh;

static C prodbasis(const std::vector<double> &u, const std::vector<C> &T) {  // sum u[n] prod T_{2^k}
  std::vector<C> v(u.begin(), u.end());
  size_t n = v.size();
  for (size_t k = 0; n > 1; k++, n /= 2) for (size_t i = 0; i < n / 2; i++) v[i] = v[2 * i] + T[k] * v[2 * i + 1];
  return v[0];
}
static std::vector<C> cheb2(C z, int k) { std::vector<C> T(k); T[0] = z; for (int i = 1; i < k; i++) T[i] = 2.0L * T[i - 1] * T[i - 1] - C(1); return T; }

template <int L, int N, int LD, int K> struct Ev {  // degree 2^K - 1
  template <int J> static std::unique_ptr<Guarded<R_Q_square<2 * (L - J * LD), N>>> key(const std::vector<int> &s, const std::vector<int> &s2) {
    auto k = mk<R_Q_square<2 * (L - J * LD), N>>();
    HEAAN<L - J * LD, N>::swkgen(s2.data(), s.data(), k->v);
    return k;
  }
  static void run(int reps, int nkeys) {
    Rng r = rng_for("eval", ((L * 2048 + N) * 64ULL + LD) * 8 + K);
    auto ct = mk<R_Q_square<L, N>>();
    auto out = mk<R_Q_square<L - K * LD, N>>(), out2 = mk<R_Q_square<L - K * LD, N>>();
    for (int kk = 0; kk < nkeys; kk++) {
      auto s = genkey(r, N, kk == 0 ? 0 : (int)r.below(7));
      int h = weightof(s);
      auto s2 = intneg(s, s);
      auto k1 = key<0>(s, s2); auto k2 = key<1>(s, s2);
      auto k3 = key<(K > 2 ? 2 : 0)>(s, s2); auto k4 = key<(K > 3 ? 3 : 0)>(s, s2); auto k5 = key<(K > 4 ? 4 : 0)>(s, s2);
      auto k6 = key<(K > 5 ? 5 : 0)>(s, s2); auto k7 = key<(K > 6 ? 6 : 0)>(s, s2);
      auto hk = [&] { return hmix(hmix(hct(k1->v), hct(k2->v)), hmix(hmix(hct(k3->v), hct(k4->v)), hmix(hct(k5->v), hmix(hct(k6->v), hct(k7->v))))); };
      u64 hkeys = hk();
      for (int rep = 0; rep < reps; rep++) {
        // slots: real in [-1,1], extremes, or complex of moderate size
        int kind = (int)r.below(5);
        std::vector<double> zr(N / 2), zi(N / 2, 0.0);
        ld rad = kind == 4 ? 0.9L / (1 << K) : 0;
        for (int i = 0; i < N / 2; i++) {
          zr[i] = kind == 1 ? (r.coin() ? 1 : -1) : kind == 2 ? (r.coin() ? 0 : r.sym() * 1e-3) : r.sym();
          if (kind == 3) zr[i] = std::cos(M_PI * (i + 0.5) / (N / 2));
          if (kind == 4) { zi[i] = rad * r.sym(); }
        }
        genring(r, ct->v[1], (int)r.below(9));
        Poly as = mulint(top(ct->v[1]), s);
        for (int i = 0; i < N; i++) frz(ct->v[0][i], vh::zs(std::llrint(std::ldexp(emb(N).coef(zr.data(), zi.data(), i), LD))) - as[i]);
        CV z = slots<N>(phase(ct->v, s), L, LD);
        // coefficients
        int ck = (int)r.below(7);
        bool viac = r.below(3) == 0 && K >= 2;
        std::vector<double> c(1 << K), u(1 << K);
        ld amax = std::ldexp(1.0L, std::min(64 - LD - K - 1, 12));
        for (int n = 0; n < (1 << K); n++) {
          switch (ck) {
            case 0: c[n] = r.sym(); break;
            case 1: c[n] = -r.unit(); break;
            case 2: c[n] = n == (int)(r.s % (1 << K)) ? -1.5 : 0; break;
            case 3: c[n] = r.sym() * (double)amax; break;
            case 4: c[n] = (double)r.range(-3, 3); break;
            case 5: c[n] = r.sym() / (1.0 + n * n); break;
            default: c[n] = r.coin() ? -1 : 1;
          }
        }
        if (viac) {
          for (auto &x : c) x /= 1 << K;
          convert_frc_tou(c.data(), u.data(), 1 << K);
        } else u = c;
        // expected values and error propagation
        CV want(N / 2), wantc(N / 2);
        std::vector<ld> M(K, 0), tm(K);
        for (int i = 0; i < N / 2; i++) {
          auto T = cheb2(z[i], K);
          for (int k = 0; k < K; k++) M[k] = std::max(M[k], std::abs(T[k]));
          want[i] = prodbasis(u, T);
          if (viac) { C b1 = 0, b2 = 0; for (int n = (1 << K) - 1; n >= 1; n--) { C b = 2.0L * z[i] * b1 - b2 + (ld)c[n]; b2 = b1; b1 = b; } wantc[i] = z[i] * b1 - b2 + (ld)c[0]; }
        }
        ld rs = N * ((h + 3) / 2 + 1) * std::ldexp(1.0L, -LD) + (ld)N * (4 * N + h) * std::ldexp(1.0L, -2 * LD);
        std::vector<ld> e(K, 0);
        for (int k = 1; k < K; k++) e[k] = 4 * M[k - 1] * e[k - 1] + 2 * e[k - 1] * e[k - 1] + 2 * rs;
        std::vector<ld> m(1 << K), er(1 << K);
        for (int n = 0; n < (1 << K); n++) { m[n] = std::fabs(u[n]); er[n] = std::ldexp(1.0L, -LD) ; }
        ld big = 0;
        for (int k = 0, n = 1 << K; k < K; k++, n /= 2) for (int i = 0; i < n / 2; i++) {
          er[i] = er[2 * i] + M[k] * er[2 * i + 1] + e[k] * (m[2 * i + 1] + er[2 * i + 1]) + rs;
          m[i] = m[2 * i] + M[k] * m[2 * i + 1];
          big = std::max(big, m[i]);
        }
        // every intermediate must fit its modulus, else the case is outside the domain
        if (std::log2(big + 1) + 3 + 2 * LD >= L - (K - 1) * LD) { cat("skipped, too large for the modulus"); continue; }
        u64 hc = hct(ct->v);
        std::vector<double> ug(u); ug.push_back(12345.0);
        poison(out->v, r.next());
        setcase("eval_poly degree %d width %d N %d scale 2^%d key weight %d slots of kind %d coefficients of kind %d%s case %d/%d seed %llu u[0]=%g u[1]=%g", (1 << K) - 1, L, N, LD, h, kind, ck,
                viac ? " through convert_frc_tou" : "", kk, rep, (unsigned long long)st().seed, u[0], u[1]);
        auto doit = [&](R_Q_square<L - K * LD, N> &p) {
          if constexpr (K == 2) eval_poly_deg3<L, N, LD>(u.data(), ct->v, k1->v, k2->v, p);
          else if constexpr (K == 3) eval_poly_deg7<L, N, LD>(u.data(), ct->v, k1->v, k2->v, k3->v, p);
          else if constexpr (K == 4) eval_poly_deg15<L, N, LD>(u.data(), ct->v, k1->v, k2->v, k3->v, k4->v, p);
          else if constexpr (K == 5) eval_poly_deg31<L, N, LD>(u.data(), ct->v, k1->v, k2->v, k3->v, k4->v, k5->v, p);
          else if constexpr (K == 6) eval_poly_deg63<L, N, LD>(u.data(), ct->v, k1->v, k2->v, k3->v, k4->v, k5->v, k6->v, p);
          else eval_poly_deg127<L, N, LD>(u.data(), ct->v, k1->v, k2->v, k3->v, k4->v, k5->v, k6->v, k7->v, p);
        };
        auto u0 = u;
        Capture cap;
        doit(out->v);
        std::string txt = cap.end();
        if (!txt.empty()) viol("output", "evaluation printed %zu bytes", txt.size());
        ld tol = 1.01L * er[0] + 1e-17L * big * K + 1e-25L;
        if (u != u0 || hct(ct->v) != hc) viol("operand", "evaluation changed an input");
        char nm[40];
        snprintf(nm, sizeof nm, "degree %d", (1 << K) - 1);
        verify<L - K * LD, N>(out->v, s, LD, want, tol, nm);
        if (viac) {
          ld sc = 0; for (double x : c) sc += std::fabs(x);
          verify<L - K * LD, N>(out->v, s, LD, wantc, tol + sc * std::pow(3.0L, K) * 1e-15L, "Chebyshev series");
          cat("Chebyshev series evaluated");
        }
        if (rep == 0) { poison(out2->v, r.next()); doit(out2->v); if (!same(out->v, out2->v)) viol("history", "second evaluation differs"); }
        if (!ct->ok() || !out->ok() || !out2->ok()) viol("overrun", "write outside an object");
        cover(hmix(hc, hbytes(u.data(), 8 * u.size())), true);
        cat(nm);
        if (kind == 4) cat("complex slots");
        if (ck == 3) cat("coefficients near the largest that fit");
      }
      if (hk() != hkeys) viol("operand", "evaluation changed an evaluation key");
    }
  }
};
static void convert() {
  Rng r = rng_for("convert", 1);
  for (int K = 2; K <= (thorough() ? 12 : 11); K++) {
    int n = 1 << K;
    // Chebyshev expansion of every product of basis polynomials (exact in long double)
    for (int rep = 0; rep < (int)scale(K > 8 ? 4 : 60, K > 8 ? 20 : 1500); rep++) {
      std::vector<double> c(n), u(n + 4, 777.0);
      int kind = (int)r.below(4);
      for (int i = 0; i < n; i++) c[i] = kind == 0 ? (double)r.range(-9, 9) : kind == 1 ? (double)(i == (int)(r.s % n)) : kind == 2 ? r.sym() : (r.below(4) ? 0.0 : (double)r.range(-99, 99));
      auto c0 = c;
      setcase("convert_frc_tou length %d kind %d case %d seed %llu", n, kind, rep, (unsigned long long)st().seed);
      convert_frc_tou(c.data(), u.data() + 2, n);
      if (c != c0) viol("operand", "convert_frc_tou changed its input");
      if (u[0] != 777 || u[1] != 777 || u[n + 2] != 777 || u[n + 3] != 777) viol("overrun", "convert_frc_tou wrote outside its result");
      // back to Chebyshev: multiply T_{2^k} in, highest first
      std::vector<ld> w(u.begin() + 2, u.begin() + 2 + n);
      // blocks: after processing bit k, block of size 2^(k+1) holds a Chebyshev series of that length
      for (int len = 1; len < n; len *= 2)
        for (int b = 0; b < n; b += 2 * len) {
          std::vector<ld> t(2 * len, 0);
          for (int i = 0; i < len; i++) {
            t[i] += w[b + i];
            ld v = w[b + len + i];
            if (i == 0) t[len] += v;
            else { t[len + i] += v / 2; t[len - i] += v / 2; }
          }
          std::copy(t.begin(), t.end(), w.begin() + b);
        }
      ld sc = 0; for (double x : c) sc += std::fabs(x);
      ld tol = kind == 2 ? sc * std::pow(3.0L, K) * 1e-16L : 0;
      if (kind == 2) tol = std::max(tol, 1e-15L);
      for (int i = 0; i < n; i++) if (!(std::fabs(w[i] - c[i]) <= tol)) { viol("convert", "coefficient %d of the Chebyshev series is %.17Lg after conversion, was %.17g", i, w[i], c[i]); break; }
      cover(hmix(hbytes(c.data(), 8 * n), K), true);
      cat("conversions");
    }
  }
}
static void body() {
  int k = (int)scale(2, 10);
#if CHUNK == 0
  convert();
  Ev<260, 8, 50, 2>::run(12 * k, 6 * k); Ev<200, 4, 40, 2>::run(12 * k, 6 * k); Ev<180, 32, 30, 2>::run(8 * k, 3 * k); Ev<320, 16, 59, 2>::run(8 * k, 4 * k);
  Ev<310, 8, 50, 3>::run(12 * k, 6 * k); Ev<220, 16, 30, 3>::run(8 * k, 4 * k);
#elif CHUNK == 1
  Ev<1450, 8, 50, 3>::run(6 * k, 2 * k); Ev<360, 8, 50, 4>::run(8 * k, 4 * k); Ev<300, 16, 40, 4>::run(6 * k, 3 * k); Ev<380, 64, 50, 4>::run(3 * k, 2 * k);
#elif CHUNK == 2
  Ev<410, 8, 50, 5>::run(6 * k, 4 * k); Ev<460, 16, 59, 5>::run(4 * k, 3 * k); Ev<330, 32, 40, 5>::run(4 * k, 2 * k);
#elif CHUNK == 3
  Ev<460, 8, 50, 6>::run(5 * k, 3 * k); Ev<420, 16, 45, 6>::run(4 * k, 2 * k);
#else
  Ev<510, 8, 50, 7>::run(4 * k, 3 * k); Ev<470, 16, 45, 7>::run(2 * k, 2 * k);
#endif
  sample("%s", casebuf());
}
VH_MAIN(body)
