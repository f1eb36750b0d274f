// C21: homomorphic modular reduction against (s + s^3/6)/(2 pi), s = sin(2 pi x), at the exact slots.
#include "HEAAN/bootstrap.h"
#define VH_HEAAN
#include "slot.h"
using namespace vh;
static Z zld(ld x) {  // nearest integer
  bool n = x < 0; if (n) x = -x;
  x = std::floor(x + 0.5L);
  ld hi = std::floor(x / 18446744073709551616.0L), lo = x - hi * 18446744073709551616.0L;
  Z v = (zu((u64)hi) << 64) + zu((u64)lo);
  return n ? Z(-v) : v;
}
template <int L, int N, int LD> void go(int nkeys, int reps) {
  const int LO = L - 12 * LD;
  static_assert(LO > LD + 3, "");
  Rng r = rng_for("evalmod", (L * 4096ULL + N) * 64 + LD);
  auto ct = mk<R_Q_square<L, N>>();
  auto out = mk<R_Q_square<LO, N>>();
  for (int kk = 0; kk < nkeys; kk++) {
    auto s = genkey(r, N, kk == 0 ? 0 : (int)r.below(7));
    int h = weightof(s);
    auto s0 = s;
    for (int rep = 0; rep < reps; rep++) {
      int kind = (int)r.below(6);
      std::vector<double> zr(N / 2), zi(N / 2, 0.0);
      std::vector<int> I(N / 2);
      for (int i = 0; i < N / 2; i++) {
        I[i] = r.range(-23, 23);
        double e = 0;
        switch (kind) {
          case 0: e = r.sym() * 0x1p-10; break;
          case 1: e = r.sym() * 0.5; break;
          case 2: e = r.sym() * 0x1p-6; I[i] = r.coin() ? 23 : -23; break;
          case 3: e = 0; break;
          case 4: e = (r.coin() ? 0.25 : -0.25) + r.sym() * 0.01; break;
          default: e = r.sym() * 0x1p-20;
        }
        zr[i] = I[i] + e;
      }
      genring(r, ct->v[1], (int)r.below(9));
      Poly as = mulint(top(ct->v[1]), s);
      for (int i = 0; i < N; i++) frz(ct->v[0][i], zld(std::ldexp(emb(N).coef(zr.data(), zi.data(), i), LD)) - as[i]);
      CV z = slots<N>(phase(ct->v, s), L, LD), want(N / 2);
      const ld P = 3.14159265358979323846264338327950288L;
      for (int i = 0; i < N / 2; i++) {
        ld sn = sinl(2 * P * (z[i].real() - std::round(z[i].real())));
        want[i] = (sn + sn * sn * sn / 6) / (2 * P);
      }
      u64 hc = hct(ct->v);
      poison(out->v, r.next());
      setcase("EvalMod width %d N %d scale 2^%d key weight %d slots of kind %d slot 0 %.12g case %d/%d seed %llu", L, N, LD, h, kind, zr[0], kk, rep, (unsigned long long)st().seed);
      EvalMod<L, N, LD, 24>(ct->v, s.data(), out->v);
      if (hct(ct->v) != hc || s != s0) viol("operand", "EvalMod changed an input");
      if (!ct->ok() || !out->ok()) viol("overrun", "write outside an object");
      ld tol = 4e-12L + std::ldexp(std::sqrt((ld)N * (h + 4)) * 4096, -LD);
      CV got = slots<N>(phase(out->v, s), LO, LD);
      ld m = 0; int at = 0;
      for (int i = 0; i < N / 2; i++) { ld d = std::abs(got[i] - want[i]); if (!(d <= m)) { m = d; at = i; } }
      if (getenv("VH_DBG")) fprintf(stderr, "L %d N %d LD %d h %d kind %d err %.3Lg tol %.3Lg  scaled %.4Lg\n", L, N, LD, h, kind, m, tol, std::ldexp(m / std::sqrt((ld)N * (h + 4)), LD));
      if (!(m <= tol)) viol("value", "slot %d holding %.12Lg became %.15Lg%+.15Lgi, expected %.15Lg; error %.3Lg, allowed %.3Lg", at, z[at].real(), got[at].real(), got[at].imag(), want[at].real(), m, tol);
      if (!canonical(out->v)) viol("canonical", "result not canonical");
      catmax("max error per cent of the bound", (double)(100 * m / tol));
      for (int i = 0; i < N / 2; i++) cat("integer part " + std::to_string(I[i]));
      cover(hc, true);
      cat("reductions");
    }
  }
}
static void body() {
  int k = (int)scale(2, 8);
#if CHUNK == 0
  go<800, 8, 60>(4 * k, 4 * k); 
#elif CHUNK == 1
  go<850, 64, 60>(2 * k, 3 * k);
#elif CHUNK == 2
  go<670, 16, 50>(3 * k, 4 * k);
#elif CHUNK == 3
  go<1100, 32, 59>(2 * k, 2 * k);
#elif CHUNK == 5
  go<420, 8, 30>(3 * k, 2 * k); go<426, 16, 32>(2 * k, 2 * k); go<440, 32, 33>(2 * k, 2 * k); go<480, 2, 36>(2 * k, 2 * k); go<500, 4, 37>(2 * k, 2 * k);
#elif CHUNK == 6
  go<810, 1024, 61>((int)scale(1, 4), 2); go<700, 256, 53>(2, k); go<640, 128, 48>(2, k);
#else
  go<552, 32, 41>(2 * k, 2 * k);
#endif
  sample("%s", casebuf());
}
VH_MAIN(body)
