// C05: CRT decomposition / recomposition against GMP.
#include "HEAAN/arith/conv/crt.h"
#define VH_HEAAN
#include "HEAAN/arith/R_Q.h"
#include "big.h"
using namespace vh;

struct Ops { int l, w; void (*run)(int l, int w); };
static std::vector<Ops> table;

static u64 prime(Rng &r, int bits) {  // odd prime of exactly about this size
  for (;;) {
    Z p = zu((r.next() >> (64 - bits)) | (1ULL << (bits - 1)));
    mpz_nextprime(p.get_mpz_t(), p.get_mpz_t());
    if ((int)mpz_sizeinbase(p.get_mpz_t(), 2) > 64 || p == 2) continue;
    u64 q; size_t c;
    mpz_export(&q, &c, -1, 8, 0, 0, p.get_mpz_t());
    return q;
  }
}
static u64 u64of(const Z &a) { u64 v = 0; size_t c; if (a != 0) mpz_export(&v, &c, -1, 8, 0, 0, a.get_mpz_t()); return v; }

template <int L, int LOGQ> void go(int, int) {
  Rng r = rng_for("crt", L * 8192 + LOGQ);
  long sets = scale(L > 40 ? 6 : 12, L > 40 ? 20 : 80), per = scale(L > 40 ? 200 : 600, 1500);
  for (long sidx = 0; sidx < sets; sidx++) {
    u64 q[L];
    int style = (int)(sidx % 6);
    int cnt = 0;
    while (cnt < L) {
      int bits = style == 0 ? 60 : style == 1 ? 61 : style == 2 ? (sidx % 12 < 6 ? 63 : 64) : style == 3 ? r.range(8, 63) : style == 4 ? r.range(L > 20 ? 9 : 3, L > 20 ? 16 : 12) : r.range(55, 62);
      u64 p = prime(r, bits);
      bool dup = false;
      for (int i = 0; i < cnt; i++) if (q[i] == p) dup = true;
      if (!dup) q[cnt++] = p;
    }
    u64 qcopy[L];
    memcpy(qcopy, q, sizeof q);
    setcase("CRT<%d,%d> constructor, first prime %llu", L, LOGQ, (unsigned long long)q[0]);
    auto C = std::make_unique<CRT<L, LOGQ>>(q);
    memset(q, 0x5A, sizeof q);  // the table must not keep a reference to the caller's array
    Z Q = 1;
    for (int i = 0; i < L; i++) Q *= zu(qcopy[i]);
    cat("prime sets");
    for (long i = 0; i < per; i++) {
      // decomposition of any signed value
      Z a = gen(r, LOGQ);
      int shape = (int)r.below(8);
      int k = (int)r.below(L);
      if (shape == 0) a = zu(qcopy[k]) * zu(r.next() >> r.below(64));
      if (shape == 1) a = -zu(qcopy[k]) * zu(r.next() >> r.below(64));
      if (shape == 2) a = zs(r.range(-3, 3)) + (r.coin() ? zu(qcopy[k]) : Z(-zu(qcopy[k])));
      if (shape == 3) a = Q / 2 - r.range(0, 3);
      if (shape == 4) a = -(Q / 2) + r.range(0, 3);
      a = umod2(a, LOGQ);
      Z s = smod2(a, LOGQ);
      Guarded<Z_Q<LOGQ>> A;
      frz(A.v, a);
      struct { u64 g0[4]; u64 v[L]; u64 g1[4]; } R;
      memset(&R, 0x3C, sizeof R);
      setcase("CRT<%d,%d> primes[0]=%llu primes[%d]=%llu value %s", L, LOGQ, (unsigned long long)qcopy[0], k, (unsigned long long)qcopy[k], sz(a).c_str());
      C->icrt(A.v, R.v);
      for (int j = 0; j < L; j++) {
        Z want;
        Z m = zu(qcopy[j]);
        mpz_fdiv_r(want.get_mpz_t(), s.get_mpz_t(), m.get_mpz_t());
        if (zu(R.v[j]) != want) { viol("decompose", "residue modulo %llu is %llu, expected %s", (unsigned long long)qcopy[j], (unsigned long long)R.v[j], want.get_str().c_str()); break; }
      }
      for (int j = 0; j < 4; j++) if (R.g0[j] != 0x3C3C3C3C3C3C3C3CULL || R.g1[j] != 0x3C3C3C3C3C3C3C3CULL) viol("overrun", "icrt wrote outside the residue array");
      if (toz(A.v) != a || !A.ok()) viol("operand", "icrt changed its operand");
      if (2 * abs(s) < Q) {
        Guarded<Z_Q<LOGQ>> B;
        poison(B.v, r.next());
        C->crt(R.v, B.v);
        if (toz(B.v) != a) viol("inverse", "recomposition of the decomposition gives %s", sz(toz(B.v)).c_str());
        if (!B.ok()) viol("overrun", "crt wrote outside the result");
        cat("round trips");
      }
      cover(hmix(hz(a), hmix(qcopy[k], L * 8192 + LOGQ)), a != 0);
      cat("decompositions");
      // recomposition of any residue vector
      u64 v[L], v0[L];
      int vs = (int)r.below(6);
      Z x;
      if (vs <= 2) {
        for (int j = 0; j < L; j++) v[j] = vs == 0 ? r.below(qcopy[j]) : (r.coin() ? qcopy[j] - 1 - r.below(2) : r.below(2)) % qcopy[j];
      } else {
        x = vs == 3 ? zs(r.range(-5, 5)) : vs == 4 ? Z(Q / 2 + r.range(-3, 3)) : Z(-(Q / 2) + r.range(-3, 3));
        for (int j = 0; j < L; j++) { Z t; Z m = zu(qcopy[j]); mpz_fdiv_r(t.get_mpz_t(), x.get_mpz_t(), m.get_mpz_t()); v[j] = u64of(t); }
      }
      memcpy(v0, v, sizeof v);
      Guarded<Z_Q<LOGQ>> B;
      poison(B.v, r.next());
      setcase("CRT<%d,%d> primes[0]=%llu recompose residues[0]=%llu ...", L, LOGQ, (unsigned long long)qcopy[0], (unsigned long long)v[0]);
      C->crt(v, B.v);
      if (memcmp(v, v0, sizeof v)) viol("operand", "crt changed its residues");
      if (!canonical(B.v)) viol("canonical", "crt result is not canonical");
      if (!B.ok()) viol("overrun", "crt wrote outside the result");
      // oracle: the result must have these residues and be of least absolute value, modulo 2^LOGQ
      Z y = 0;
      for (int j = 0; j < L; j++) {
        Z m = zu(qcopy[j]), Qi = Q / m, inv;
        if (m == 1) continue;
        mpz_invert(inv.get_mpz_t(), Qi.get_mpz_t(), m.get_mpz_t());
        Z c = zu(v0[j]) * inv % m;
        y += c * Qi;
      }
      y %= Q;
      if (2 * y > Q) y -= Q;
      if (toz(B.v) != umod2(y, LOGQ)) viol("recompose", "got %s, expected %s", sz(toz(B.v)).c_str(), sz(umod2(y, LOGQ)).c_str());
      cat("recompositions");
      cover(hmix(hz(y), hmix(qcopy[0], 1 + L * 8192 + LOGQ)), y != 0);
    }
  }
  sample("%s", casebuf());
}
template <int L, int... W> void reg() { (table.push_back({L, W, &go<L, W>}), ...); }
static void body() {
#if CHUNK == 0
  reg<1, 1, 5, 30, 58, 59, 60, 61, 62, 63, 64, 65, 100, 128, 200>();
  reg<2, 2, 40, 59, 60, 61, 64, 65, 90, 119, 120, 121, 127, 128, 129, 192>();
#elif CHUNK == 1
  reg<3, 10, 60, 62, 64, 89, 100, 128, 150, 180, 181, 192, 250>();
  reg<4, 33, 61, 63, 64, 120, 127, 191, 230, 239, 240, 241, 256, 320>();
#elif CHUNK == 2
  reg<5, 64, 65, 100, 128, 150, 200, 299, 300, 301, 320>();
  reg<6, 62, 193, 350, 360, 384, 500>();
  reg<7, 64, 128, 256, 420, 450>();
  reg<8, 61, 250, 479, 480, 512>();
#elif CHUNK == 3
  reg<10, 128, 270, 300, 600, 640>();
  reg<12, 63, 350, 700, 768>();
  reg<16, 64, 450, 960, 1024>();
  reg<20, 128, 590, 1200>();
#elif CHUNK == 4
  reg<33, 64, 960, 1980>();
  reg<49, 1450, 2900>();
  reg<50, 1450>();
#else
  reg<98, 2900, 3000>();
  reg<102, 3051>();
#endif
  for (auto &t : table) { t.run(t.l, t.w); cat("(primes, width) pairs"); }
}
VH_MAIN(body)
