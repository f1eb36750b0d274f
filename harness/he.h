// Helpers for the encryption monitors: exact phases, noise measurement, keys.
#pragma once
#include "big.h"
namespace vh {
// a * s mod X^N+1 for an integer polynomial s with few or small entries, exact
inline Poly mulint(const Poly &a, const std::vector<int> &s) {
  int n = (int)a.size();
  int w = 0, big = 0;
  for (int x : s) { if (x) w++; big = std::max(big, std::abs(x)); }
  if ((long long)w * n > 400000) {
    Poly t(n);
    for (int i = 0; i < n; i++) t[i] = s[i];
    return negacyclic(a, t);
  }
  Poly r(n);
  for (int k = 0; k < n; k++) if (s[k])
    for (int i = 0; i < n; i++) {
      int j = i + k;
      int c = s[k];
      if (j >= n) { j -= n; c = -c; }
      if (c == 1) r[j] += a[i];
      else if (c == -1) r[j] -= a[i];
      else r[j] += a[i] * c;
    }
  return r;
}
// c0 + c1*s mod 2^L, canonical
template <int L, int N> Poly phase(const R_Q_square<L, N> &ct, const std::vector<int> &s) {
  Poly p = mulint(top(ct[1]), s), c = top(ct[0]);
  for (int i = 0; i < N; i++) p[i] = umod2(p[i] + c[i], L);
  return p;
}
// largest centred difference modulo 2^w
inline Z maxdiff(const Poly &a, const Poly &b, int w, int *at = nullptr) {
  Z m = 0;
  for (size_t i = 0; i < a.size(); i++) {
    Z d = abs(smod2(a[i] - b[i], w));
    if (d > m) { m = d; if (at) *at = (int)i; }
  }
  return m;
}
inline int weightof(const std::vector<int> &s) { int h = 0; for (int x : s) if (x) h++; return h; }
// ternary keys of several shapes, from our own randomness
inline std::vector<int> genkey(Rng &r, int n, int style) {
  std::vector<int> s(n, 0);
  if (n > 8192) { for (int k = 0; k < 200; k++) s[r.below(n)] = r.coin() ? 1 : -1; return s; }  // products with the key take time proportional to its weight
  switch (style % 7) {
    case 0: for (int k = 0; k < std::max(1, n / 4); k++) s[r.below(n)] = r.coin() ? 1 : -1; break;
    case 1: for (auto &x : s) x = r.range(-1, 1); break;
    case 2: s[r.below(n)] = r.coin() ? 1 : -1; break;
    case 3: for (auto &x : s) x = r.coin() ? 1 : -1; break;
    case 4: for (auto &x : s) x = 1; break;
    case 5: break;  // the zero key
    default: for (int k = 0; k < std::max(1, n / 8); k++) s[r.below(n)] = r.coin() ? 1 : -1;
  }
  return s;
}
inline std::vector<int> intneg(const std::vector<int> &a, const std::vector<int> &b) {  // negacyclic product of small integer polynomials
  int n = (int)a.size();
  std::vector<int> c(n, 0);
  for (int i = 0; i < n; i++) if (a[i])
    for (int j = 0; j < n; j++) if (b[j]) {
      if (i + j < n) c[i + j] += a[i] * b[j]; else c[i + j - n] -= a[i] * b[j];
    }
  return c;
}
inline std::vector<int> galint(const std::vector<int> &p, long long g) {
  int n = (int)p.size();
  std::vector<int> q(n);
  for (int i = 0; i < n; i++) {
    long long e = (long long)i * g % (2 * n);
    if (e < n) q[e] = p[i]; else q[e - n] = -p[i];
  }
  return q;
}
inline Poly galp(const Poly &p, long long g) {
  int n = (int)p.size();
  Poly q(n);
  for (int i = 0; i < n; i++) {
    long long e = (long long)i * g % (2 * n);
    if (e < n) q[e] = p[i]; else q[e - n] = -p[i];
  }
  return q;
}
inline long long p5(long long r, int n) { long long p = 1, m = n >= 4 ? n / 2 : 1; for (long long i = 0; i < r % m; i++) p = p * 5 % (2 * n); return p; }
template <int L, int N> void genring(Rng &r, R_Q<L, N> &a, int style) {
  for (int i = 0; i < N; i++) {
    Z v;
    switch (style) {
      case 0: v = pow2(L) - 1; break;
      case 1: v = pow2(L - 1); break;
      case 2: v = pow2(L - 1) - (L > 1 ? 1 : 0); break;
      case 3: v = gen(r, L); break;
      case 4: v = umod2(zs(r.range(-50, 50)), L); break;
      case 5: v = 0; break;
      default: v = genu(r, L);
    }
    frz(a[i], v);
  }
}
template <int L, int N> void genct(Rng &r, R_Q_square<L, N> &c) {
  int s0 = (int)r.below(9), s1 = (int)r.below(9);
  genring(r, c[0], s0);
  genring(r, c[1], s1);
}
template <int L, int N> bool canonical(const R_Q_square<L, N> &c) { return canonical(c[0]) && canonical(c[1]); }
template <int L, int N> u64 hct(const R_Q_square<L, N> &c) { return hmix(hobj(c[0]), hobj(c[1])); }
template <int L, int N> bool same(const R_Q_square<L, N> &a, const R_Q_square<L, N> &b) { return same(a[0], b[0]) && same(a[1], b[1]); }
}  // namespace vh
