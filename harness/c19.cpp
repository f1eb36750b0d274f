// C19: coefficient-to-slot and slot-to-coefficient against exact phases.
#include "HEAAN/bootstrap.h"
#define VH_HEAAN
#include "slot.h"
using namespace vh;

static ld zl(const Z &v, int sc) {
  Z t = abs(v);
  int bl = bitlen(t), sh = bl > 63 ? bl - 63 : 0;
  t >>= sh;
  ld x = (ld)t.get_ui();
  return std::ldexp(v < 0 ? -x : x, sh - sc);
}
// one grouped stage: 3^g diagonals of sup norm gain
static ld stage(int N, int h, int g, ld gain, ld zsup, ld err, int lg, int LD) {
  int live = std::min((int)std::pow(3.0, g), N / 2);
  ld B = 8 * N + (h + 3) / 2 + 1, enc = 0.51L * N * std::ldexp(1.0L, -LD) + 4e-15L * N * gain;
  // every diagonal has sup norm at most gain; row sums at most gain * 1 (gain already is the row-sum norm)
  return gain * err + live * enc * (zsup + err) + (live * gain + live * enc) * N * B * std::ldexp(1.0L, -lg);
}
template <int L, int LOGN, int LD, int G> void go(int reps) {
  const int N = 1 << LOGN, H = N / 2, D = (LOGN - 1) / G;
  static_assert((LOGN - 1) % G == 0 && LD * (D + 1) + 2 * LOGN < L, "");
  Rng r = rng_for("cts", (L * 64 + LOGN) * 8 + G);
  auto ct = mk<R_Q_square<L, N>>(), back = mk<R_Q_square<L, N>>();
  auto pr = mk<R_Q_square<L, N>[2]>();
  for (int rep = 0; rep < reps; rep++) {
    auto s = genkey(r, N, rep);
    int h = weightof(s), lin = LD, kind = (int)r.below(5);
    genmsg(r, ct->v, s, lin, kind);
    Poly ph = phase(ct->v, s);
    std::vector<ld> m(N);
    ld msup = 0;
    for (int i = 0; i < N; i++) { m[i] = zl(smod2(ph[i], L), lin); msup = std::max(msup, std::fabs(m[i])); }
    CV z = slots<N>(ph, L, lin);
    u64 hc = hct(ct->v);
    auto s0 = s;
    memset((void *)&pr->v, 0xa7, sizeof pr->v);
    setcase("CoeffToSlot width %d N %d G %d scale 2^%d key weight %d message kind %d case %d seed %llu", L, N, G, LD, h, kind, rep, (unsigned long long)st().seed);
    CoeffToSlot<L, LOGN, LD, G>(ct->v, s.data(), pr->v);
    // row-sum norm of one factor (transposed, scaled): 2 N^(-1/(LOGN-1)), all of them together 1/2
    ld gain = std::pow(2.0L * std::pow((ld)N, -1.0L / (LOGN - 1)), G), err = 0, zs = sup(z);
    int lg = lin;
    for (int d = 0; d < D; d++) { err = stage(N, h, G, gain, zs, err, lg, LD); zs *= gain; lg += LD; }
    err = 2 * err + (ld)N * (8 * N + h) * std::ldexp(1.0L, -lg) + 1e-16L * sup(z) * N;
    for (int k = 0; k < 2; k++) {
      CV want(H);
      for (int i = 0; i < H; i++) want[i] = m[brev(i, LOGN - 1) + k * H];
      verify<L, N>(pr->v[k], s, lg, want, err, k ? "upper half in the slots" : "lower half in the slots");
    }
    cover(hmix(hc, G), true);
    cat("coefficient-to-slot runs");
    if (hct(ct->v) != hc || s != s0) viol("operand", "CoeffToSlot changed an input");
    // opposite move from fresh slots: two ciphertexts with real slots
    if (rep % 2 == 0) {
      auto c0 = mk<R_Q_square<L, N>>(), c1 = mk<R_Q_square<L, N>>();
      std::vector<ld> v(N);
      for (int k = 0; k < 2; k++) {
        std::vector<double> a(H), b(H, 0.0);
        for (int i = 0; i < H; i++) { double x = kind == 1 ? (i == (int)(r.s % H)) : kind == 2 ? (r.coin() ? 1 : -1) : r.sym(); a[i] = x; v[brev(i, LOGN - 1) + k * H] = x; }
        auto &c = k ? c1->v : c0->v;
        genring(r, c[1], (int)r.below(9));
        Poly as = mulint(top(c[1]), s);
        for (int i = 0; i < N; i++) {
          ld q = emb(N).coef(a.data(), b.data(), i);
          long long w = std::llrint(std::ldexp(q, lin));
          frz(c[0][i], vh::zs(w) - as[i]);
        }
      }
      u64 h0 = hct(c0->v), h1 = hct(c1->v);
      poison(back->v, r.next());
      setcase("SlotToCoeff width %d N %d G %d scale 2^%d key weight %d kind %d case %d seed %llu", L, N, G, LD, h, kind, rep, (unsigned long long)st().seed);
      SlotToCoeff<L, LOGN, LD, G>(c0->v, c1->v, s.data(), back->v);
      ld e = N * std::ldexp(1.0L, -lin), zq = 1, gn = std::pow(2.0L, G);
      int l2 = lin;
      for (int d = 0; d < D; d++) { e = stage(N, h, G, gn, zq, e, l2, LD); zq *= gn; l2 += LD; }
      // both halves contribute
      e *= 2;
      std::vector<ld> fa(H), fb(H);
      emb(N).fwd(v.data(), fa.data(), fb.data());
      CV want(H);
      for (int i = 0; i < H; i++) want[i] = C(fa[i], fb[i]);
      verify<L, N>(back->v, s, l2, want, e + 1e-15L * N, "slots moved to coefficients");
      if (hct(c0->v) != h0 || hct(c1->v) != h1 || s != s0) viol("operand", "SlotToCoeff changed an input");
      if (!c0->ok() || !c1->ok()) viol("overrun", "write outside an object");
      cover(hmix(h0, h1), true);
      cat("slot-to-coefficient runs");
    }
    // composition gives the message back
    if (lg + D * LD + LOGN + 6 < L) {
      poison(back->v, r.next());
      setcase("SlotToCoeff after CoeffToSlot width %d N %d G %d scale 2^%d key weight %d message kind %d case %d seed %llu", L, N, G, LD, h, kind, rep, (unsigned long long)st().seed);
      SlotToCoeff<L, LOGN, LD, G>(pr->v[0], pr->v[1], s.data(), back->v);
      ld e = err, zq = msup * 1.01L, gn = std::pow(2.0L, G);
      int l2 = lg;
      for (int d = 0; d < D; d++) { e = stage(N, h, G, gn, zq, e, l2, LD); zq *= gn; l2 += LD; }
      verify<L, N>(back->v, s, l2, z, 2 * e, "composition");
      cover(hmix(hc, G + 100), true);
      cat("compositions");
    }
    if (!ct->ok() || !back->ok() || !pr->ok()) viol("overrun", "write outside an object");
  }
  cat("(N, grouping) pairs");
}
static void body() {
  int k = (int)scale(1, 10);
#if CHUNK == 0
  go<300, 2, 50, 1>(12 * k); go<340, 3, 50, 1>(10 * k); go<300, 3, 50, 2>(10 * k); go<430, 4, 50, 1>(8 * k); go<300, 4, 40, 3>(8 * k); go<540, 5, 50, 1>(4 * k);
#elif CHUNK == 1
  go<300, 5, 50, 2>(6 * k); go<200, 5, 40, 4>(6 * k); go<600, 6, 45, 1>(3 * k); go<360, 6, 50, 1>(2 * k); go<330, 7, 40, 2>(3 * k);
#elif CHUNK == 2
  go<290, 7, 50, 3>(2 * k); go<620, 7, 45, 1>(2 * k); go<640, 8, 40, 1>(1 * k); go<420, 9, 40, 2>(1 * k);
#elif CHUNK == 3
  go<280, 9, 50, 4>(1 * k);
#else
  if (thorough()) go<320, 10, 40, 3>(3);
  go<480, 9, 50, 2>(1 * k); go<500, 6, 35, 1>(2 * k);
#endif
  sample("%s", casebuf());
}
VH_MAIN(body)
