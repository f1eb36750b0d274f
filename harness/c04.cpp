// C04: 64-bit modular arithmetic against 128-bit and GMP arithmetic.
#include "HEAAN/arith/Z_Q.h"
#include "HEAAN/arith/conv/mod.h"
#include "big.h"
using namespace vh;
typedef unsigned __int128 W;

static u64 genq(Rng &r) {
  static const u64 A[] = {2, 3, 4, 5, 7, 257, 65537, (1ULL << 32) - 1, 1ULL << 32, (1ULL << 32) + 1, (1ULL << 60) + 33, 0xffffffffffc0001ULL, 0x1000000000980001ULL,
                          (1ULL << 61) - 1, (1ULL << 62), (1ULL << 63) - 25, 1ULL << 63, (1ULL << 63) + 1, (1ULL << 63) + 29, ~0ULL, ~0ULL - 58, ~0ULL - 1};
  u64 q;
  switch (r.below(3)) {
    case 0: q = A[r.below(22)]; break;
    case 1: q = r.next() >> r.below(63); break;
    default: q = genw(r);
  }
  return q < 2 ? 2 + q : q;
}
static u64 gop(Rng &r, u64 q) {
  switch (r.below(6)) {
    case 0: return q - 1 - r.below(3);
    case 1: return q + r.below(3);
    case 2: return r.below(3);
    case 3: return r.below(q);
    case 4: return genw(r);
    default: return r.next();
  }
}
static u64 mm(u64 a, u64 b, u64 q) { return (u64)((W)a * b % q); }
static u64 pw(u64 a, u64 n, u64 q) {
  Z r, A = zu(a), N = zu(n), Q = zu(q);
  mpz_powm(r.get_mpz_t(), A.get_mpz_t(), N.get_mpz_t(), Q.get_mpz_t());
  u64 v = 0; size_t c;
  mpz_export(&v, &c, -1, 8, 0, 0, r.get_mpz_t());
  return v;
}
#define CK(name, got, want) do { u64 g_ = (got), w_ = (want); if (g_ != w_) viol(name, "%s(a=0x%llx, b=0x%llx, q=0x%llx) = 0x%llx, expected 0x%llx", name, (unsigned long long)a, (unsigned long long)b, (unsigned long long)q, (unsigned long long)g_, (unsigned long long)w_); } while (0)

static void one(u64 a, u64 b, u64 q) {
  W p = (W)a * b;
  u64 lo = 0x77, hi = 0x88;
  mul(a, b, lo, hi);
  CK("mul", lo, (u64)p); CK("mul", hi, (u64)(p >> 64));
  lo = hi = 0x99;
  mul_(a, b, lo, hi);
  CK("mul_", lo, (u64)p); CK("mul_", hi, (u64)(p >> 64));
  { u64 x = a, h; mul(x, b, x, h); CK("mul(in place)", x, (u64)p); CK("mul(in place)", h, (u64)(p >> 64)); }
  { u64 x = b, l; mul(a, x, l, x); CK("mul(in place hi)", l, (u64)p); CK("mul(in place hi)", x, (u64)(p >> 64)); }
  CK("mod", mod(a, b, q), (u64)((((W)b << 64) | a) % q));
  CK("add_mod", add_mod(a, b, q), (u64)(((W)a + b) % q));
  CK("sub_mod", sub_mod(a, b, q), (u64)(((W)(a % q) + q - b % q) % q));
  CK("mul_mod", mul_mod(a, b, q), mm(a, b, q));
}
static void body() {
  Rng r = rng_for("mod", 0);
  long n = scale(3000000, 60000000);
  for (long i = 0; i < n; i++) {
    u64 q = genq(r), a = gop(r, q), b = gop(r, q);
    if (i % 64 == 0) setcase("a=0x%llx b=0x%llx q=0x%llx", (unsigned long long)a, (unsigned long long)b, (unsigned long long)q);
    one(a, b, q);
    cover(hmix(hmix(a, b), q), a || b);
    if (i % 16 == 0) {
      CK("pow_mod", pow_mod(a, b, q), pw(a, b, q));
      u64 e = r.below(70);
      b = e; CK("pow_mod", pow_mod(a, b, q), pw(a, b, q));
      cat("powers");
    }
  }
  cat("add, sub, mul, reduction", n);
  // small moduli and operands exhaustively
  if (st().part == 0)
    for (u64 q = 2; q <= 40; q++)
      for (u64 a = 0; a <= 2 * q + 1; a++)
        for (u64 b = 0; b <= 2 * q + 1; b++) {
          setcase("a=%llu b=%llu q=%llu", (unsigned long long)a, (unsigned long long)b, (unsigned long long)q);
          one(a, b, q);
          CK("pow_mod", pow_mod(a, b, q), pw(a, b, q));
          cover(hmix(hmix(a, b), q));
          cat("exhaustive small cases");
        }
  // inverses for primes of every size
  long m = scale(4000, 100000);
  for (long i = 0; i < m; i++) {
    Z p = zu(r.next() >> r.below(63));
    mpz_nextprime(p.get_mpz_t(), p.get_mpz_t());
    if (mpz_sizeinbase(p.get_mpz_t(), 2) > 64) continue;
    u64 q = 0; size_t c;
    mpz_export(&q, &c, -1, 8, 0, 0, p.get_mpz_t());
    for (int k = 0; k < 4; k++) {
      u64 a = gop(r, q), b = 0;
      if (a % q == 0) continue;
      setcase("inverse a=0x%llx q=0x%llx", (unsigned long long)a, (unsigned long long)q);
      u64 inv = inv_mod(a, q);
      if (inv >= q || mm(a % q, inv, q) != 1 % q) viol("inv_mod", "inv_mod(0x%llx, 0x%llx) = 0x%llx", (unsigned long long)a, (unsigned long long)q, (unsigned long long)inv);
      (void)b;
      cat("inverses");
      cover(hmix(a, q + 1));
    }
  }
  sample("%s", casebuf());
}
VH_MAIN(body)
