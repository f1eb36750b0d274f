// C23: EvalRound bootstrapping with coarse coefficient-to-slot matrices.
#include "boot.h"
using namespace vh;
template <int LQ, int LOGN, int LC, int LS, int G, int LB = 60, int LD = LB - 10> void go(int nkeys, int maxh, bool control = false) {
  typedef Boot<LQ, LOGN, LC, LS, G, LB> B;
  const int N = B::N, LO = B::LO;
  Rng r = rng_for("round", ((LQ * 64 + LOGN) * 64 + G) * 64 + LC + LB * 100);
  auto b = mk<B>();
  auto ct = mk<R_Q_square<LB, N>>();
  auto pt = mk<R_Q<LB, N>>();
  auto out = mk<R_Q_square<LO, N>>();
  const ld bs = 0x1p-22L * (N > 512 ? std::sqrt(N / 512.0L) : 1), bc = 0x1p-26L;
  for (int kk = 0; kk < nkeys; kk++) {
    auto s = bootkey<N>(r, maxh, kk % 4);
    int h = weightof(s);
    auto s0 = s;
    int kind = kk < 2 ? 1 - kk : (int)r.below(NMSG);
    std::vector<double> zr(N / 2), zi(N / 2);
    genmessage(r, kind, N / 2, zr.data(), zi.data());
    encode<LB, LOGN>(zr.data(), zi.data(), 1ULL << LD, pt->v);
    HEAAN<LB, N>::enc(pt->v, s.data(), ct->v);
    long mult = 0;
    if (kk % 3 != 1 && h > 0) { mult = hostile(r, ct->v, s, 22 - (int)r.below(4)); catmax("largest multiple of q forced by the mask", (double)mult); cat("masks aligned with the key"); }
    u64 hc = hct(ct->v);
    Poly m = phase(ct->v, s);
    for (auto &x : m) x = smod2(x, LB);
    poison(b->v, r.next()); poison(out->v, r.next());
    setcase("EvalRound bootstrap raised width %d N %d CtS scale 2^%d StC scale 2^%d G %d key weight %d q 2^%d, largest multiple forced %ld, message %s case %d seed %llu", LQ, N, LC, LS, G, h, LB, mult, msgname(kind), kk, (unsigned long long)st().seed);
    b->v.evalround(ct->v, s.data(), out->v);
    ld e = sloterr(slots<N>(phase(out->v, s), LO, LD), zr.data(), zi.data()), ce = coeferr(out->v, s, m, LD);
    if (getenv("VH_DBG")) fprintf(stderr, "round N %d LC %d LS %d G %d h %d q %d I %ld %s: log2 coef err %.2Lf slot err %.2Lf\n", N, LC, LS, G, h, LB, mult, msgname(kind), log2l(ce), log2l(e));
    if (!(ce < bc)) viol("coefficients", "coefficient error 2^%.2Lf relative to the scale (allowed 2^-26)", log2l(ce));
    if (!(e < bs)) viol("slots", "slot error 2^%.2Lf (allowed 2^%.2Lf)", log2l(e), log2l(bs));
    if (!canonical(out->v)) viol("canonical", "refreshed ciphertext not canonical");
    if (hct(ct->v) != hc || s != s0) viol("operand", "bootstrapping changed an input");
    if (!b->ok() || !ct->ok() || !out->ok() || !pt->ok()) viol("overrun", "write outside an object");
    catmax("max coefficient error in units of 2^-40", (double)std::ldexp(ce, 40));
    catmax("max slot error in units of 2^-40", (double)std::ldexp(e, 40));
    cover(hc, true);
    cat("refreshes");
    if (control && kk < 2) {
      b->v.conventional(ct->v, s.data(), out->v);
      ld e2 = sloterr(slots<N>(phase(out->v, s), LO, LS + 0), zr.data(), zi.data());
      cat(e2 > 64 * e ? "control: conventional bootstrapping is more than 64 times worse here" : "control: conventional bootstrapping is comparable here");
      if (getenv("VH_DBG")) fprintf(stderr, "  control conventional err 2^%.2Lf\n", log2l(e2));
    }
  }
}
static void body() {
  int k = (int)scale(1, 6);
#if CHUNK == 0
  go<1080, 5, 19, 60, 2>(5 * k, 100, true);
#elif CHUNK == 1
  go<1000, 4, 19, 60, 3>(6 * k, 100, true);
#elif CHUNK == 2
  go<1160, 7, 21, 60, 2>(2 * k, 100, true);
#elif CHUNK == 3
  go<1450, 9, 22, 60, 2>(1 * k, 128, false);
#elif CHUNK == 4
  go<1060, 5, 60, 60, 2>(4 * k, 128);
#elif CHUNK == 5
  go<1100, 7, 23, 50, 3>(2 * k, 128);
#elif CHUNK == 6
  go<1220, 6, 24, 55, 1>(2 * k, 64);
#elif CHUNK == 8
  go<1080, 5, 19, 61, 2, 61>(3 * k, 128, true); go<1000, 4, 20, 60, 3, 58>(4 * k, 128, true); go<1000, 2, 19, 60, 1>(6 * k, 128, true);
#elif CHUNK == 9
  go<1160, 6, 21, 55, 1, 56>(2 * k, 128, true); go<1040, 5, 19, 54, 2, 54>(3 * k, 128, true);
#else
  go<1450, 13, 25, 60, 3>(1, 128);
#endif
  sample("%s", casebuf());
}
VH_MAIN(body)
