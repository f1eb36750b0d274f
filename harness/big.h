// Big-integer oracle (GMP) for Z_Q / R_Q objects, and value generators.
#pragma once
#include "vh.h"
#include <gmpxx.h>
namespace vh {
typedef mpz_class Z;

inline Z pow2(int k) { Z r; mpz_setbit(r.get_mpz_t(), k); return r; }
inline Z umod2(const Z &a, int k) { Z r; mpz_fdiv_r_2exp(r.get_mpz_t(), a.get_mpz_t(), k); return r; }
// signed representative in [-2^(k-1), 2^(k-1))
inline Z smod2(const Z &a, int k) {
  Z r = umod2(a, k);
  if (mpz_tstbit(r.get_mpz_t(), k - 1)) r -= pow2(k);
  return r;
}
inline Z imp(const u64 *p, int n) { Z r; mpz_import(r.get_mpz_t(), n, -1, 8, 0, 0, p); return r; }
inline void expo(const Z &a, u64 *p, int n) {  // a >= 0 and fits
  for (int i = 0; i < n; i++) p[i] = 0;
  size_t c = 0;
  if (a != 0) mpz_export(p, &c, -1, 8, 0, 0, a.get_mpz_t());
}
inline Z zu(u64 x) { Z r; mpz_import(r.get_mpz_t(), 1, -1, 8, 0, 0, &x); return r; }
inline Z zs(long long x) { Z r = zu(x < 0 ? 0 - (u64)x : (u64)x); return x < 0 ? Z(-r) : r; }
inline u64 hz(const Z &a) {
  u64 h = mpz_sgn(a.get_mpz_t()) + 5;
  size_t n = mpz_size(a.get_mpz_t());
  return hbytes(mpz_limbs_read(a.get_mpz_t()), n * 8, h);
}
inline std::string sz(const Z &a) {
  std::string s = a.get_str(16);
  if (s.size() > 180) s = s.substr(0, 80) + ".." + s.substr(s.size() - 80);
  return "0x" + s;
}
inline int bitlen(const Z &a) { return a == 0 ? 0 : (int)mpz_sizeinbase(a.get_mpz_t(), 2); }

// canonical value of width k (0 <= v < 2^k) from a mix of structured and uniform shapes
inline Z gen(Rng &r, int k) {
  Z v;
  int t = (int)r.below(16);
  int nl = (k + 63) / 64;
  switch (t) {
    case 0: v = 0; break;
    case 1: v = 1; break;
    case 2: v = pow2(k) - 1; break;
    case 3: v = pow2(k - 1); break;
    case 4: v = pow2(k - 1) - 1; break;
    case 5: v = pow2(k - 1) + 1; break;
    case 6: v = pow2((int)r.below(k)); break;
    case 7: v = pow2((int)r.below(k)) - 1; break;
    case 8: v = -pow2((int)r.below(k)); break;
    case 9:  // limbs from a special alphabet
    case 10: {
      for (int i = 0; i < nl; i++) {
        static const u64 A[] = {0, ~0ULL, 1, 1ULL << 63, (1ULL << 63) - 1, 0xFFFFFFFFULL, 0xFFFFFFFF00000000ULL, ~0ULL - 1, 1ULL << 32};
        v = (v << 64) + zu(A[r.below(9)]);
      }
      break;
    }
    case 11: v = zs((long long)r.range(-9, 9)); break;
    case 12: {  // sparse/dense runs of ones
      int a = (int)r.below(k), b = (int)r.below(k);
      if (a > b) std::swap(a, b);
      v = pow2(b) - pow2(a);
      if (r.coin()) v = -v;
      break;
    }
    case 13: {  // random length
      int m = 1 + (int)r.below(k);
      for (int i = 0; i < (m + 63) / 64; i++) v = (v << 64) + zu(r.next());
      v = umod2(v, m);
      if (r.coin()) v = -v;
      break;
    }
    default:
      for (int i = 0; i < nl; i++) v = (v << 64) + zu(r.next());
  }
  return umod2(v, k);
}
inline Z genu(Rng &r, int k) {
  Z v;
  for (int i = 0; i < (k + 63) / 64; i++) v = (v << 64) + zu(r.next());
  return umod2(v, k);
}
inline u64 genw(Rng &r) {
  static const u64 A[] = {0, 1, 2, 3, ~0ULL, ~0ULL - 1, 1ULL << 63, (1ULL << 63) - 1, (1ULL << 63) + 1, 1ULL << 32, (1ULL << 32) - 1, (1ULL << 32) + 1, 0xFFFFFFFF00000000ULL};
  switch (r.below(4)) {
    case 0: return A[r.below(13)];
    case 1: return r.next() >> r.below(64);
    case 2: return (1ULL << r.below(64)) + (u64)r.range(-2, 2);
    default: return r.next();
  }
}
}  // namespace vh

#ifdef VH_HEAAN
namespace vh {
template <int L> Z toz(const Z_Q<L> &a) {
  u64 b[(L + 63) / 64];
  for (int i = 0; i < (L + 63) / 64; i++) b[i] = a[i];
  return imp(b, (L + 63) / 64);
}
template <int L> Z tos(const Z_Q<L> &a) { return smod2(toz(a), L); }
template <int L> void frz(Z_Q<L> &a, const Z &v) {
  u64 b[(L + 63) / 64];
  expo(umod2(v, L), b, (L + 63) / 64);
  for (int i = 0; i < (L + 63) / 64; i++) a[i] = b[i];
}
template <int L> bool canonical(const Z_Q<L> &a) { return L % 64 == 0 || (a[(L + 63) / 64 - 1] >> (L % 64)) == 0; }
template <int L, int N> bool canonical(const R_Q<L, N> &a) {
  for (int i = 0; i < N; i++) if (!canonical(a[i])) return false;
  return true;
}
typedef std::vector<Z> Poly;
template <int L, int N> Poly top(const R_Q<L, N> &a) { Poly p(N); for (int i = 0; i < N; i++) p[i] = toz(a[i]); return p; }
template <int L, int N> Poly tops(const R_Q<L, N> &a) { Poly p(N); for (int i = 0; i < N; i++) p[i] = tos(a[i]); return p; }
template <int L, int N> void frp(R_Q<L, N> &a, const Poly &p) { for (int i = 0; i < N; i++) frz(a[i], p[i]); }
template <int L, int N> u64 hobj(const R_Q<L, N> &a) {
  u64 h = L * 131071ULL + N;
  for (int i = 0; i < N; i++) for (int j = 0; j < (L + 63) / 64; j++) h = hmix(h, a[i][j]);
  return h;
}
template <int L, int N> bool same(const R_Q<L, N> &a, const R_Q<L, N> &b) {
  for (int i = 0; i < N; i++) for (int j = 0; j < (L + 63) / 64; j++) if (a[i][j] != b[i][j]) return false;
  return true;
}
}  // namespace vh
#endif
namespace vh {
// product of two integer polynomials modulo X^N+1, exact (Kronecker substitution)
inline std::vector<Z> negacyclic(const std::vector<Z> &a, const std::vector<Z> &b) {
  int n = (int)a.size();
  int ba = 0, bb = 0;
  for (auto &x : a) ba = std::max(ba, bitlen(x));
  for (auto &x : b) bb = std::max(bb, bitlen(x));
  int lg = 0;
  while ((1 << lg) < n) lg++;
  int w = ba + bb + lg + 3;
  w = (w + 63) / 64 * 64;
  int wl = w / 64;
  // two's complement packing: sum a_i 2^(w i) computed as positive parts minus negative parts
  auto pack = [&](const std::vector<Z> &p) {
    std::vector<u64> pos((size_t)n * wl, 0), neg((size_t)n * wl, 0);
    for (int i = 0; i < n; i++) {
      size_t c = 0;
      if (p[i] > 0) mpz_export(&pos[(size_t)i * wl], &c, -1, 8, 0, 0, p[i].get_mpz_t());
      else if (p[i] < 0) mpz_export(&neg[(size_t)i * wl], &c, -1, 8, 0, 0, p[i].get_mpz_t());
    }
    Z r = imp(pos.data(), (int)pos.size()) - imp(neg.data(), (int)neg.size());
    return r;
  };
  Z P = pack(a) * pack(b);
  bool sg = P < 0;
  if (sg) P = -P;
  std::vector<u64> limbs((size_t)(2 * n + 1) * wl, 0);
  size_t c = 0;
  if (P != 0) mpz_export(limbs.data(), &c, -1, 8, 0, 0, P.get_mpz_t());
  std::vector<Z> r(n);
  int carry = 0;
  for (int i = 0; i < 2 * n; i++) {
    Z d = imp(&limbs[(size_t)i * wl], wl) + carry;
    carry = 0;
    if (d >= pow2(w - 1)) { d -= pow2(w); carry = 1; }
    if (sg) d = -d;
    if (i < n) r[i] += d; else r[i - n] -= d;
  }
  return r;
}
}  // namespace vh
