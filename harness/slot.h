// Slots of exact phases in long double, test ciphertexts with chosen phases.
#pragma once
#include "he.h"
#include "emb.h"
#include <complex>
namespace vh {
typedef std::complex<ld> C;
typedef std::vector<C> CV;
typedef std::vector<CV> CM;

// top 63 bits of every coefficient are kept
template <int N> CV slots(const Poly &ph, int L, int logscale) {  // slots of a phase divided by 2^logscale
  std::vector<ld> m(N), a(N / 2), b(N / 2);
  for (int i = 0; i < N; i++) {
    Z v = smod2(ph[i], L);
    int bl = bitlen(abs(v));
    int sh = bl > 63 ? bl - 63 : 0;
    Z t = abs(v) >> sh;
    ld x = (ld)t.get_ui();
    m[i] = std::ldexp(v < 0 ? -x : x, sh - logscale);
  }
  emb(N).fwd(m.data(), a.data(), b.data());
  CV z(N / 2);
  for (int i = 0; i < N / 2; i++) z[i] = C(a[i], b[i]);
  return z;
}
inline ld sup(const CV &z) { ld m = 0; for (auto &x : z) m = std::max(m, std::abs(x)); return m; }
// ciphertext whose phase has slots of size about zmag at scale 2^login; uniform c1
template <int L, int N> void genmsg(Rng &r, R_Q_square<L, N> &ct, const std::vector<int> &s, int login, int kind) {
  Poly m(N);
  for (int i = 0; i < N; i++) {
    Z v = genu(r, login + 1) - pow2(login);
    if (kind == 1) v = i == (int)(r.s % N) ? pow2(login) : Z(0);
    if (kind == 2) v = r.coin() ? pow2(login) : Z(-pow2(login));
    if (kind == 3) v = v >> 8;
    m[i] = v;
  }
  genring(r, ct[1], (int)r.below(9));
  Poly a = mulint(top(ct[1]), s);
  for (int i = 0; i < N; i++) frz(ct[0][i], m[i] - a[i]);
}
template <int L, int N> void verify(const R_Q_square<L, N> &out, const std::vector<int> &s, int logout, const CV &want, ld tol, const char *what) {
  CV got = slots<N>(phase(out, s), L, logout);
  ld m = 0; int at = 0;
  for (int i = 0; i < N / 2; i++) { ld d = std::abs(got[i] - want[i]); if (!(d <= m)) { m = d; at = i; } }
  if (!(m <= tol)) viol(what, "%s: slot %d is (%.12Lg,%.12Lg), the matrix gives (%.12Lg,%.12Lg); error %.3Lg, allowed %.3Lg", what, at, got[at].real(), got[at].imag(), want[at].real(), want[at].imag(), m, tol);
  if (!canonical(out)) viol("canonical", "%s: result not canonical", what);
  catmax(std::string("max error per cent of the bound"), (double)(100 * m / tol));
}
}  // namespace vh
