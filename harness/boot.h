// Conventional and EvalRound bootstrapping assembled from the library's steps, as its own tests and experiments do.
#pragma once
#include "HEAAN/bootstrap.h"
#define VH_HEAAN
#include "slot.h"
namespace vh {
// LQ: raised modulus, LOGN, LC: scale of the coefficient-to-slot matrices, LS: of the slot-to-coefficient matrices, G: grouping
template <int LQ, int LOGN, int LC, int LS, int G, int LB = 60> struct Boot {
  static const int N = 1 << LOGN, D = (LOGN - 1) / G, LA = LQ - D * LC, LE = LA - 12 * LB, LO = LE - D * LS;
  static_assert((LOGN - 1) % G == 0 && LO >= LB, "");
  typedef R_Q_square<LB, N> In;  // the bottom modulus is the scale of the modular reduction
  typedef R_Q_square<LO, N> Out;
  R_Q_square<LQ, N> raised, cts[2];
  R_Q_square<LA, N> rs[2];
  R_Q_square<LE, N> em[2], qi[2], stc;
  Out tmp;
  void front(const In &ct, const int *s) {
    mod_raise<LB, LQ, N>(ct, raised);
    CoeffToSlot<LQ, LOGN, LC, G>(raised, s, cts);
    for (int i = 0; i < 2; i++) RS<LQ, LA, N>(cts[i], rs[i]);
    for (int i = 0; i < 2; i++) EvalMod<LA, N, LB, 24>(rs[i], s, em[i]);
  }
  void conventional(const In &ct, const int *s, Out &out) {
    front(ct, s);
    SlotToCoeff<LE, LOGN, LS, G>(em[0], em[1], s, stc);
    RS<LE, LO, N>(stc, out);
  }
  void evalround(const In &ct, const int *s, Out &out) {
    front(ct, s);
    for (int i = 0; i < 2; i++) { resize(rs[i], qi[i]); qi[i] -= em[i]; }
    SlotToCoeff<LE, LOGN, LS, G>(qi[0], qi[1], s, stc);
    RS<LE, LO, N>(stc, tmp);
    resize(raised, out);
    out -= tmp;
  }
};
static const int NMSG = 9;
inline const char *msgname(int kind) {
  static const char *n[] = {"random", "all ones", "all minus one", "unit circle", "one slot", "zero", "random signs", "imaginary", "half zero"};
  return n[kind];
}
inline void genmessage(Rng &r, int kind, int n2, double *zr, double *zi) {
  for (int i = 0; i < n2; i++) {
    double a = 6.283185307179586 * r.unit(), m = std::sqrt(r.unit());
    zr[i] = zi[i] = 0;
    switch (kind) {
      case 0: zr[i] = m * std::cos(a); zi[i] = m * std::sin(a); break;
      case 1: zr[i] = 1; break;
      case 2: zr[i] = -1; break;
      case 3: zr[i] = std::cos(3.14159265358979 * i / n2); zi[i] = std::sin(3.14159265358979 * i / n2); break;
      case 4: if (i == (int)(r.s % n2)) zi[i] = -1; break;
      case 5: break;
      case 6: zr[i] = r.coin() ? 1 : -1; break;
      case 7: zi[i] = 1; break;
      default: if (i < n2 / 2) { zr[i] = r.sym() * 0.7; zi[i] = r.sym() * 0.7; }
    }
  }
}
template <int N> std::vector<int> bootkey(Rng &r, int maxh, int kind) {  // weight at most maxh
  std::vector<int> s(N, 0);
  int h = kind == 0 ? maxh : kind == 1 ? (int)r.below(maxh + 1) : kind == 2 ? 0 : 1 + (int)r.below(3);
  h = std::min(h, N);
  for (int k = 0; k < h;) { int p = (int)r.below(N); if (!s[p]) { s[p] = r.coin() ? 1 : -1; k++; } }
  return s;
}
// Turn a fresh encryption into one of the same plaintext whose mask makes the multiple of q after raising as large as `want`
// at a few coefficients: the mask gets components along X^k times the conjugated key.
template <int L, int N> long hostile(Rng &r, R_Q_square<L, N> &ct, const std::vector<int> &s, int want) {
  Poly ph = phase(ct, s);
  Z half = zs(1) << (L - 1);
  int h = weightof(s);
  if (h == 0) return 0;
  std::vector<int> dir(N, 0);
  int places = 1 + (int)r.below(3);
  for (int p = 0; p < places; p++) {
    int k = (int)r.below(N), sg = r.coin() ? 1 : -1;
    for (int j = 0; j < N; j++) {  // X^k * s(X^-1)
      int e = (k - j + 2 * N) % (2 * N), v = s[j] * sg;
      if (e >= N) { e -= N; v = -v; }
      if (v) dir[e] = v;
    }
  }
  for (double t = std::min(1.0, 2.0 * want / h);; t *= 0.93) {
    Poly c1(N), lift(N);
    for (int i = 0; i < N; i++) {
      double u = dir[i] ? t * dir[i] * (1 - r.unit() / 64) : r.sym() * t;
      c1[i] = Z(mpz_class(half.get_d() * 0.998 * u));
    }
    Poly cs = mulint(c1, s), c0(N);
    long big = 0;
    for (int i = 0; i < N; i++) {
      c0[i] = smod2(ph[i] - cs[i], L);
      Z all = c0[i] + cs[i] - smod2(ph[i], L);
      long I = mpz_get_si(Z(all >> L).get_mpz_t());
      big = std::max(big, std::labs(I));
    }
    if (big > want) continue;
    for (int i = 0; i < N; i++) { frz(ct[0][i], umod2(c0[i], L)); frz(ct[1][i], umod2(c1[i], L)); }
    return big;
  }
}
template <int L, int N> ld coeferr(const R_Q_square<L, N> &ct, const std::vector<int> &s, const Poly &m, int logdelta) {
  Poly p = phase(ct, s);
  Z w = maxdiff(p, m, L);
  return std::ldexp((ld)w.get_d(), -logdelta);
}
inline ld sloterr(const CV &a, const double *zr, const double *zi) {
  ld m = 0;
  for (size_t i = 0; i < a.size(); i++) { ld d = std::abs(a[i] - C(zr[i], zi[i])); if (!(d <= m)) m = d; }
  return m;
}
inline ld sloterr(const CV &a, const CV &b) {
  ld m = 0;
  for (size_t i = 0; i < a.size(); i++) { ld d = std::abs(a[i] - b[i]); if (!(d <= m)) m = d; }
  return m;
}
}  // namespace vh
