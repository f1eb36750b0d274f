// C22: conventional bootstrapping, including use of the refreshed ciphertext and repeated refreshes.
#include "boot.h"
using namespace vh;
template <int LQ, int LOGN, int LC, int G, int LB = 60, int LD = LB - 10> void go(int nkeys, int maxh, bool chain) {
  typedef Boot<LQ, LOGN, LC, LD, G, LB> B;
  const int N = B::N, LO = B::LO;
  Rng r = rng_for("boot", ((LQ * 64 + LOGN) * 64 + G) * 64 + LB);
  auto b = mk<B>();
  auto ct = mk<R_Q_square<LB, N>>();
  auto pt = mk<R_Q<LB, N>>();
  auto out = mk<R_Q_square<LO, N>>(), out2 = mk<R_Q_square<LO, N>>();
  const ld bound = 0x1p-22L;
  for (int kk = 0; kk < nkeys; kk++) {
    auto s = bootkey<N>(r, maxh, kk % 4);
    int h = weightof(s);
    auto s0 = s;
    int kind = kk < 2 ? 1 - kk : (int)r.below(NMSG);
    std::vector<double> zr(N / 2), zi(N / 2);
    genmessage(r, kind, N / 2, zr.data(), zi.data());
    encode<LB, LOGN>(zr.data(), zi.data(), 1ULL << LD, pt->v);
    HEAAN<LB, N>::enc(pt->v, s.data(), ct->v);
    long mult = 0;
    if (kk % 3 != 1 && h > 0) { mult = hostile(r, ct->v, s, 22 - (int)r.below(4)); catmax("largest multiple of q forced by the mask", (double)mult); cat("masks aligned with the key"); }
    u64 hc = hct(ct->v);
    poison(b->v, r.next()); poison(out->v, r.next());
    setcase("bootstrap raised width %d N %d CtS scale 2^%d G %d key weight %d q 2^%d, largest multiple forced %ld, message %s case %d seed %llu", LQ, N, LC, G, h, LB, mult, msgname(kind), kk, (unsigned long long)st().seed);
    b->v.conventional(ct->v, s.data(), out->v);
    CV got = slots<N>(phase(out->v, s), LO, LD);
    ld e = sloterr(got, zr.data(), zi.data());
    if (getenv("VH_DBG")) fprintf(stderr, "conv N %d LC %d G %d h %d q %d I %ld %s: log2 err %.2Lf\n", N, LC, G, h, LB, mult, msgname(kind), log2l(e));
    if (!(e < bound)) viol("refresh", "slot error 2^%.2Lf after bootstrapping (allowed 2^-22)", log2l(e));
    if (!canonical(out->v)) viol("canonical", "refreshed ciphertext not canonical");
    if (hct(ct->v) != hc || s != s0) viol("operand", "bootstrapping changed an input");
    if (!b->ok() || !ct->ok() || !out->ok() || !pt->ok()) viol("overrun", "write outside an object");
    catmax("max error in units of 2^-40", (double)std::ldexp(e, 40));
    cover(hc, true);
    cat("refreshes");
    cat("bits of modulus gained", LO - LB);
    if (LO < LB + 2 * LD || !chain) continue;
    // the refreshed ciphertext is multiplied, brought down and refreshed again, several times
    CV cur = got;
    for (int it = 0; it < (int)scale(1, 3); it++) {
      std::vector<int> s2 = intneg(s, s);
      auto evk = mk<R_Q_square<2 * LO, N>>();
      HEAAN<LO, N>::swkgen(s2.data(), s.data(), evk->v);
      auto sq = mk<R_Q_square<LO, N>>();
      auto low = mk<R_Q_square<LO - LD, N>>();
      setcase("multiply refreshed ciphertext, then refresh again: width %d N %d G %d key weight %d message %s round %d case %d seed %llu", LQ, N, G, h, msgname(kind), it, kk, (unsigned long long)st().seed);
      Mul<LO, N>(out->v, out->v, evk->v, sq->v);
      RS<LO, LO - LD, N>(sq->v, low->v);
      CV w(N / 2), g = slots<N>(phase(low->v, s), LO - LD, LD);
      for (int i = 0; i < N / 2; i++) w[i] = cur[i] * cur[i];
      ld tolm = std::ldexp((ld)N * (h + 8), -LD);
      ld em = sloterr(g, w);
      if (!(em <= tolm)) viol("multiply", "square of a refreshed ciphertext is off by 2^%.2Lf", log2l(em));
      R_Q_square<LB, N> &c2 = ct->v;
      resize(low->v, c2);
      setcase("second refresh: width %d N %d G %d key weight %d message %s round %d case %d seed %llu", LQ, N, G, h, msgname(kind), it, kk, (unsigned long long)st().seed);
      b->v.conventional(c2, s.data(), out2->v);
      CV got2 = slots<N>(phase(out2->v, s), LO, LD);
      ld e2 = sloterr(got2, g);
      if (!(e2 < bound)) viol("refresh-again", "slot error 2^%.2Lf after a further bootstrapping (allowed 2^-22)", log2l(e2));
      cover(hct(out2->v), true);
      cat("refreshes of refreshed ciphertexts");
      out->v = out2->v;
      cur = got2;
    }
  }
}
static void body() {
  int k = (int)scale(1, 6);
#if CHUNK == 0
  go<1160, 5, 60, 2>(5 * k, 128, true);
#elif CHUNK == 1
  go<1100, 4, 50, 3>(6 * k, 128, true);
#elif CHUNK == 2
  go<1340, 7, 60, 2>(2 * k, 100, true);
#elif CHUNK == 3
  go<1450, 9, 60, 2>(1 * k, 128, false);
#elif CHUNK == 4
  go<1170, 3, 60, 1>(6 * k, 128, true);
#elif CHUNK == 5
  go<1240, 7, 55, 3>(2 * k, 128, false);
#elif CHUNK == 7  // other moduli and scales, the smallest degree
  go<1160, 5, 61, 2, 61>(3 * k, 128, true); go<1100, 4, 50, 3, 58>(4 * k, 128, true); go<1160, 2, 54, 1>(6 * k, 128, true);
#elif CHUNK == 8
  go<1330, 6, 55, 1, 56>(2 * k, 128, true); go<1160, 5, 54, 2, 54>(3 * k, 128, true);
#else
  go<1420, 6, 55, 1>(2 * k, 64, false);
#endif
  sample("%s", casebuf());
}
VH_MAIN(body)
