// Long-double oracle of the canonical embedding.
#pragma once
#include "vh.h"
#include <complex>
namespace vh {
typedef long double ld;
struct Emb {  // table of exp(i*pi*k/N), k < 2N
  int n;
  std::vector<ld> c, s;
  std::vector<int> p5;
  explicit Emb(int N) : n(N), c(2 * N), s(2 * N), p5(N / 2) {
    const ld PIL = 3.14159265358979323846264338327950288L;
    for (int k = 0; k < 2 * N; k++) {
      // exact quadrant reduction keeps the table accurate
      int q = k / (N / 2), m = k % (N / 2);
      ld a = PIL * m / N, cc = cosl(a), ss = sinl(a);
      if (q == 0) { c[k] = cc; s[k] = ss; }
      else if (q == 1) { c[k] = -ss; s[k] = cc; }
      else if (q == 2) { c[k] = -cc; s[k] = -ss; }
      else { c[k] = ss; s[k] = -cc; }
    }
    long long p = 1;
    for (int i = 0; i < N / 2; i++) { p5[i] = (int)p; p = p * 5 % (2 * N); }
  }
  // slot i of the polynomial m (length N)
  void slot(const ld *m, int i, ld &re, ld &im) const {
    ld a = 0, b = 0;
    unsigned st = p5[i], e = 0, mask = 2 * n - 1;
    for (int k = 0; k < n; k++) { a += m[k] * c[e]; b += m[k] * s[e]; e = (e + st) & mask; }
    re = a; im = b;
  }
  // coefficient k of the inverse embedding of z
  template <class T> ld coef(const T *zr, const T *zi, int k) const {
    ld a = 0;
    unsigned mask = 2 * n - 1;
    for (int i = 0; i < n / 2; i++) {
      unsigned e = (unsigned)((unsigned long long)p5[i] * k) & mask;
      a += (ld)zr[i] * c[e] + (ld)zi[i] * s[e];
    }
    return 2 * a / n;
  }
  // in-place transform a_t = sum_k a_k exp(sgn*2*pi*I*t*k/n)
  void fft(std::vector<std::complex<ld>> &a, int sgn) const {
    for (int i = 1, j = 0; i < n; i++) {
      int b = n >> 1;
      for (; j & b; b >>= 1) j ^= b;
      j ^= b;
      if (i < j) std::swap(a[i], a[j]);
    }
    for (int len = 2; len <= n; len <<= 1) {
      int st = 2 * n / len;
      for (int i = 0; i < n; i += len)
        for (int k = 0; k < len / 2; k++) {
          std::complex<ld> w(c[k * st], sgn * s[k * st]), x = a[i + k], y = a[i + k + len / 2];
          y = std::complex<ld>(y.real() * w.real() - y.imag() * w.imag(), y.real() * w.imag() + y.imag() * w.real());
          a[i + k] = x + y;
          a[i + k + len / 2] = x - y;
        }
    }
  }
  void fwd(const ld *m, ld *re, ld *im) const {
    if (n < 2048) { for (int i = 0; i < n / 2; i++) slot(m, i, re[i], im[i]); return; }
    std::vector<std::complex<ld>> a(n);
    for (int k = 0; k < n; k++) a[k] = std::complex<ld>(m[k] * c[k], m[k] * s[k]);
    fft(a, 1);
    for (int i = 0; i < n / 2; i++) { re[i] = a[(p5[i] - 1) / 2].real(); im[i] = a[(p5[i] - 1) / 2].imag(); }
  }
  // all coefficients of the inverse embedding
  template <class T> void inv(const T *zr, const T *zi, ld *m) const {
    if (n < 2048) { for (int k = 0; k < n; k++) m[k] = coef(zr, zi, k); return; }
    std::vector<std::complex<ld>> a(n);
    for (int i = 0; i < n / 2; i++) {
      a[(p5[i] - 1) / 2] = std::complex<ld>(zr[i], zi[i]);
      a[(2 * n - p5[i] - 1) / 2] = std::complex<ld>(zr[i], -(ld)zi[i]);
    }
    fft(a, -1);
    for (int k = 0; k < n; k++) m[k] = (a[k].real() * c[k] + a[k].imag() * s[k]) / n;
  }
};
inline const Emb &emb(int N) {
  static std::map<int, std::unique_ptr<Emb>> t;
  static std::mutex mu;
  std::lock_guard<std::mutex> g(mu);
  auto &p = t[N];
  if (!p) p.reset(new Emb(N));
  return *p;
}
inline unsigned brev(unsigned x, int d) { unsigned r = 0; for (int i = 0; i < d; i++) if (x >> i & 1) r |= 1u << (d - 1 - i); return r; }
static const double U53 = 1.1102230246251565e-16;
}  // namespace vh
