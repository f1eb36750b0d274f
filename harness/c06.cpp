// C06: NTT against exact polynomial arithmetic.
#include "HEAAN/arith/conv/ntt.h"
#include "big.h"
using namespace vh;
typedef unsigned __int128 W;

static bool isprime(u64 q) { Z z = zu(q); return mpz_probab_prime_p(z.get_mpz_t(), 30) > 0; }
// a prime = 1 mod 2N; `bits` wide if possible. The cofactor is kept below 2^44 so that the library's trial division stays short.
static u64 pickprime(Rng &r, int n, int bits) {
  u64 step = 2ULL * n;
  while (step < (1ULL << (bits > 44 ? bits - 44 : 0))) step *= 2;
  for (int tries = 0; tries < 200000; tries++) {
    u64 hi = bits == 64 ? ~0ULL : (1ULL << bits) - 1, lo = 1ULL << (bits - 1);
    if (hi < step) { bits++; continue; }
    u64 q = (lo + r.below(hi - lo)) / step * step + 1;
    if (q > 2 && isprime(q)) return q;
    if (tries % 500 == 499 && bits < 62) bits++;
  }
  return 0;
}
static u64 red(const Z &a, u64 q) { Z r, m = zu(q); mpz_fdiv_r(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t()); u64 v = 0; size_t c; if (r != 0) mpz_export(&v, &c, -1, 8, 0, 0, r.get_mpz_t()); return v; }

static std::vector<u64> genvec(Rng &r, int n, u64 q) {
  std::vector<u64> a(n, 0);
  switch (r.below(8)) {
    case 0: a[r.below(n)] = 1 % q; break;
    case 1: a[r.below(n)] = q - 1; break;
    case 2: for (auto &x : a) x = q - 1; break;
    case 3: for (auto &x : a) x = r.coin() ? q - 1 : 0; break;
    case 4: for (int k = 0; k < 3; k++) a[r.below(n)] = r.below(q); break;
    case 5: for (auto &x : a) x = r.below(q < 10 ? q : 10); break;
    default: for (auto &x : a) x = r.below(q);
  }
  return a;
}
// exact negacyclic product mod q
static std::vector<u64> prod(const std::vector<u64> &a, const std::vector<u64> &b, u64 q) {
  int n = (int)a.size();
  std::vector<u64> c(n);
  if (n <= 64) {
    for (int i = 0; i < n; i++) {
      W s = 0;
      for (int k = 0; k < n; k++) {
        u64 t = k <= i ? (u64)((W)a[k] * b[i - k] % q) : (u64)((W)a[k] * b[n + i - k] % q);
        if (k > i && t) t = q - t;
        s += t;
      }
      c[i] = (u64)(s % q);
    }
    return c;
  }
  std::vector<Z> A(n), B(n);
  for (int i = 0; i < n; i++) { A[i] = zu(a[i]); B[i] = zu(b[i]); }
  auto C = negacyclic(A, B);
  for (int i = 0; i < n; i++) c[i] = red(C[i], q);
  return c;
}
template <int N> struct Buf { u64 g0[4]; u64 v[N]; u64 g1[4]; };

template <int N> void go(int np, int per, bool products) {
  Rng r = rng_for("ntt", N);
  for (int p = 0; p < np; p++) {
    static const int BITS[] = {60, 20, 64, 45, 30, 63, 61, 64, 10, 36, 52, 3};
    u64 q = pickprime(r, N, BITS[(p + st().part * 5) % 12]);
    if (!q) { cat("no prime found"); continue; }
    setcase("NTT<%d> constructor q=%llu", N, (unsigned long long)q);
    auto T = std::make_unique<NTT<N>>(q);
    cat("(length, prime) pairs");
    if (T->q != q) viol("modulus", "NTT stores modulus %llu", (unsigned long long)T->q);
    auto A = std::make_unique<Buf<N>>(), B = std::make_unique<Buf<N>>(), C = std::make_unique<Buf<N>>();
    auto load = [&](Buf<N> &b, const std::vector<u64> &v) { memset(&b, 0x3C, sizeof b); memcpy(b.v, v.data(), 8 * N); };
    auto okg = [&](Buf<N> &b) { for (int j = 0; j < 4; j++) if (b.g0[j] != 0x3C3C3C3C3C3C3C3CULL || b.g1[j] != 0x3C3C3C3C3C3C3C3CULL) viol("overrun", "write outside the vector"); };
    auto canon = [&](const u64 *v, const char *w) { for (int i = 0; i < N; i++) if (v[i] >= q) { viol("canonical", "%s gives %llu at %d, not below q", w, (unsigned long long)v[i], i); return; } };
    for (int i = 0; i < per; i++) {
      auto a = genvec(r, N, q), b = genvec(r, N, q);
      setcase("NTT<%d> q=%llu a[0]=%llu a[1]=%llu b[0]=%llu", N, (unsigned long long)q, (unsigned long long)a[0], (unsigned long long)a[1], (unsigned long long)b[0]);
      load(*A, a); load(*B, b);
      T->ntt(A->v); canon(A->v, "ntt");
      T->ntt(B->v); canon(B->v, "ntt");
      // linearity of the transform
      u64 la = r.below(q);
      std::vector<u64> lin(N);
      for (int k = 0; k < N; k++) lin[k] = (u64)(((W)a[k] * la + b[k]) % q);
      load(*C, lin);
      T->ntt(C->v);
      for (int k = 0; k < N; k++) if (C->v[k] != (u64)(((W)A->v[k] * la + B->v[k]) % q)) { viol("linearity", "ntt(c*a+b) differs from c*ntt(a)+ntt(b) at %d", k); break; }
      cat("linearity checks");
      if (products) {
        load(*C, a);
        for (int k = 0; k < N; k++) C->v[k] = (u64)((W)A->v[k] * B->v[k] % q);
        T->intt(C->v); canon(C->v, "intt"); okg(*C);
        auto want = prod(a, b, q);
        for (int k = 0; k < N; k++) if (C->v[k] != want[k]) { viol("product", "coefficient %d is %llu, expected %llu", k, (unsigned long long)C->v[k], (unsigned long long)want[k]); break; }
        cat("products");
      }
      T->intt(A->v); canon(A->v, "intt"); okg(*A);
      for (int k = 0; k < N; k++) if (A->v[k] != a[k]) { viol("intt-ntt", "round trip changes coefficient %d", k); break; }
      load(*B, b);
      T->intt(B->v); canon(B->v, "intt");
      T->ntt(B->v); okg(*B);
      for (int k = 0; k < N; k++) if (B->v[k] != b[k]) { viol("ntt-intt", "round trip (inverse first) changes coefficient %d", k); break; }
      cat("round trips", 2);
      cover(hmix(hbytes(a.data(), 8 * N), hmix(hbytes(b.data(), 8 * N), q)), true);
    }
    if (N <= 8) {  // a complete basis
      for (int e = 0; e < N; e++) for (int f = 0; f < N; f++) {
        std::vector<u64> a(N, 0), b(N, 0);
        a[e] = 1; b[f] = q - 1;
        load(*A, a); load(*B, b);
        T->ntt(A->v); T->ntt(B->v);
        for (int k = 0; k < N; k++) A->v[k] = (u64)((W)A->v[k] * B->v[k] % q);
        T->intt(A->v);
        auto want = prod(a, b, q);
        if (memcmp(A->v, want.data(), 8 * N)) viol("product", "X^%d * -X^%d wrong for N=%d q=%llu", e, f, N, (unsigned long long)q);
        cat("basis products");
        cover(hmix(hmix(e, f), q));
      }
    }
  }
  sample("%s", casebuf());
}
static void body() {
  int k = (int)scale(1, 8);
#if CHUNK == 0
  go<2>(24 * k, 120, true); go<4>(24 * k, 120, true); go<8>(24 * k, 120, true); go<16>(24 * k, 100, true);
#elif CHUNK == 1
  go<32>(16 * k, 100, true); go<64>(16 * k, 60, true); go<128>(16 * k, 40, true); go<256>(12 * k, 40, true);
#elif CHUNK == 2
  go<512>(12 * k, 30, true); go<1024>(10 * k, 20, true); go<2048>(8 * k, 10, true); go<4096>(6 * k, 8, true);
#else
  go<8192>(4 * k, 5, true); go<16384>(3 * k, 5, true); go<32768>(3 * k, 4, true); go<65536>(3 * k, 4, true); go<131072>(3 * k, 4, true);
#endif
}
VH_MAIN(body)
