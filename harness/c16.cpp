// C16: rescaling, modulus reduction and raising on exact phases.
#include "HEAAN/bootstrap.h"
#define VH_HEAAN
#include "he.h"
using namespace vh;

static Z rdiv(const Z &a, int j) { return (a + pow2(j) / 2) >> j; }

template <int F, int T, int N> void go(int per) {
  Rng r = rng_for("rs", (F * 4096ULL + T) * 65536 + N);
  auto A = mk<R_Q_square<F, N>>();
  auto B = mk<R_Q_square<T, N>>();
  per *= (int)scale(1, 20);
  for (int t = 0; t < per; t++) {
    std::vector<int> s = genkey(r, N, t);
    int h = weightof(s);
    genct(r, A->v);
    u64 ha = hct(A->v);
    Poly p = phase(A->v, s);
    setcase("<%d -> %d, N=%d> key weight %d a0[0]=%s", F, T, N, h, sz(toz(A->v[0][0])).c_str());
    if (F >= T) {
      poison(B->v, r.next());
      if constexpr (F >= T) RS<F, T, N>(A->v, B->v);
      Poly q = phase(B->v, s);
      // twice the error, in units of 2^-j of the new modulus: |2^j q - p| <= (h+2)/2 * 2^j, modulo 2^F
      for (int i = 0; i < N; i++) {
        Z d = abs(smod2((q[i] << (F - T)) - p[i], F));
        if (2 * d > ((Z)(h + 2) << (F - T)) && bitlen(Z((Z)(h + 2) << (F - T))) < F - 1) { viol("rescale", "coefficient %d: rescaled plaintext off by %s/2^%d units, allowed %d/2", i, sz(d).c_str(), F - T, h + 2); break; }
        if (F == T && d != 0) { viol("rescale", "rescaling by 1 changed the plaintext"); break; }
      }
      if (!canonical(B->v)) viol("canonical", "rescaled ciphertext not canonical");
      cat("rescalings");
      cover(hmix(ha, 1 + F * 4096 + T), true);
      // reducing the modulus
      for (int k = 0; k < 2; k++) {
        poison(B->v, r.next());
        if (k) mod_raise<F, T, N>(A->v, B->v); else resize<F, T, N>(A->v, B->v);
        Poly u = phase(B->v, s);
        for (int i = 0; i < N; i++) if (u[i] != umod2(p[i], T)) { viol("reduce", "coefficient %d changed modulo the new modulus", i); break; }
        if (!canonical(B->v)) viol("canonical", "reduced ciphertext not canonical");
      }
      cat("modulus reductions");
    }
    if (F <= T) {
      poison(B->v, r.next());
      mod_raise<F, T, N>(A->v, B->v);
      Poly u = phase(B->v, s);
      Z lim = (h + 3) / 2;
      for (int i = 0; i < N; i++) {
        Z m = smod2(p[i], F), d = smod2(u[i] - m, T);
        if (umod2(d, F) != 0) { viol("raise", "coefficient %d: raised plaintext is not congruent to the old one", i); break; }
        // quotient, as far as the larger modulus can tell
        Z I = d >> F;
        if (T > F + 12 && abs(I) > lim) { viol("raise-size", "coefficient %d: multiple of q is %s, allowed %s", i, I.get_str().c_str(), lim.get_str().c_str()); break; }
        catmax("max multiple of q after raising", std::min(1e9, Z(abs(I)).get_d()));
      }
      if (!canonical(B->v)) viol("canonical", "raised ciphertext not canonical");
      cat("modulus raisings");
      cover(hmix(ha, 2 + F * 4096 + T), true);
    }
    if (hct(A->v) != ha) viol("operand", "input changed");
    if (!A->ok() || !B->ok()) viol("overrun", "write outside an object");
  }
  cat("(from, to, N) triples");
  sample("%s", casebuf());
}
// chains of rescalings as used after each multiplication: encrypted value divided again and again
template <int L, int STEP, int N> void chain(const R_Q_square<L, N> &c, const std::vector<int> &s, const Poly &orig, int done) {
  if constexpr (L - STEP >= 20) {
    auto B = mk<R_Q_square<L - STEP, N>>();
    RS<L, L - STEP, N>(c, B->v);
    Poly q = phase(B->v, s);
    int h = weightof(s);
    for (int i = 0; i < N; i++) {
      Z want = rdiv(orig[i], done + STEP), d = abs(smod2(q[i] - want, L - STEP));
      if (2 * d > 2 * (h + 2) + 2) { viol("rescale-chain", "after %d bits coefficient %d is off by %s", done + STEP, i, sz(d).c_str()); break; }
    }
    cat("rescalings in chains");
    cover(hmix(hct(B->v), L), true);
    chain<L - STEP, STEP, N>(B->v, s, orig, done + STEP);
  }
}
template <int L, int STEP, int N> void chains() {
  Rng r = rng_for("chain", L * 4096 + STEP);
  auto A = mk<R_Q_square<L, N>>();
  auto P = mk<R_Q<L, N>>();
  for (int t = 0; t < (int)scale(6, 60); t++) {
    std::vector<int> s = genkey(r, N, t);
    for (int i = 0; i < N; i++) frz(P->v[i], smod2(gen(r, L), L) >> 4);
    HEAAN<L, N>::enc(P->v, s.data(), A->v);
    setcase("chain of rescalings from %d by %d, N=%d", L, STEP, N);
    chain<L, STEP, N>(A->v, s, tops(P->v), 0);
  }
}
template <int F, int N, int... T> void rs(int per) { (go<F, T, N>(per), ...); }
static void body() {
#if CHUNK == 0
  rs<65, 8, 30, 63, 64, 65, 66, 128, 129, 200>(60); rs<64, 8, 20, 63, 64, 65, 127, 128, 192>(60); rs<60, 16, 30, 59, 60, 61, 64, 120, 180, 320, 1450>(50);
#elif CHUNK == 1
  rs<128, 8, 30, 64, 78, 127, 128, 129, 192, 256>(50); rs<130, 8, 60, 65, 66, 80, 129, 130, 131, 700>(50); rs<192, 16, 64, 128, 142, 191, 192, 193>(40); rs<257, 8, 64, 193, 200, 256, 257, 258, 400>(40);
#elif CHUNK == 2
  rs<850, 16, 60, 425, 790, 800, 849, 850, 851, 1450>(24); rs<1450, 16, 60, 725, 1390, 1400, 1449, 1450, 2900>(20); rs<2900, 8, 1450, 2840, 2850>(20); rs<120, 32, 60, 70, 90, 120, 1000>(20);
#elif CHUNK == 3
  rs<60, 512, 60, 200, 1450>(4); rs<100, 128, 50, 60, 300>(8); rs<60, 64, 100, 850, 2000>(20);
  chains<450, 50, 32>(); chains<513, 64, 16>(); chains<700, 60, 16>(); chains<330, 31, 8>();
#else
  rs<60, 4096, 40, 200>(6); rs<130, 16384, 65, 700>(3); rs<60, 65536, 40, 300>(2); rs<120, 131072, 60, 130>(1);
#endif
}
VH_MAIN(body)
