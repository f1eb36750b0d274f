// C10: encode / decode / decode_log against the long-double embedding and exact rounding.
#include "impl/message.h"
#include "impl/simple_plaintext.h"
#include "impl/plaintext.h"
#define VH_HEAAN
#include "big.h"
#include "emb.h"
using namespace vh;

static ld told(const Z &a) {
  Z b = abs(a);
  int n = bitlen(b);
  ld v;
  if (n <= 64) { u64 x = 0; size_t c; if (b != 0) mpz_export(&x, &c, -1, 8, 0, 0, b.get_mpz_t()); v = (ld)x; }
  else { Z t = b >> (n - 64); u64 x; size_t c; mpz_export(&x, &c, -1, 8, 0, 0, t.get_mpz_t()); v = ldexpl((ld)x, n - 64); }
  return a < 0 ? -v : v;
}

template <int LOGQ, int LOGN> void go(int per) {
  const int N = 1 << LOGN;
  const Emb &E = emb(N);
  Rng r = rng_for("enc", LOGQ * 64 + LOGN);
  auto P = mk<R_Q<LOGQ, N>>(), P2 = mk<R_Q<LOGQ, N>>();
  std::vector<double> zr(N / 2), zi(N / 2), orr(N / 2), oi(N / 2), lr(N / 2), li(N / 2);
  const int maxbits = LOGQ - 1 < 63 ? LOGQ - 1 : 63;
  for (int t = 0; t < per; t++) {
    // choose the size of the coefficients (log2) and a scale
    int top = r.range(0, maxbits - 1);
    if (r.below(3) == 0) top = r.range(0, maxbits - 1 < 38 ? maxbits - 1 : 38);
    if (LOGQ > 66 && r.below(6) == 0) top = 63;
    u64 Delta = r.coin() ? 1ULL << r.below(64) : 1 + (r.next() >> r.below(64));
    double amp = std::ldexp(1.0, top) / (double)Delta;
    std::vector<double> m(N);
    int shape = (int)r.below(6);
    for (auto &x : m) {
      double u;
      switch (shape) {
        case 0: u = r.sym(); break;
        case 1: u = std::round(r.sym() * 64) / 64; break;               // exact dyadic values
        case 2: u = (r.coin() ? 1 : -1) * (0.5 + 0.5 * r.unit()); break;   // all large
        case 3: u = r.below(8) ? 0 : r.sym(); break;
        case 4: u = r.sym() * std::ldexp(1.0, -r.range(0, 20)); break;
        default: u = r.gauss() / 6; if (u > 1) u = 1; if (u < -1) u = -1;
      }
      x = u * amp * (1 - 1e-9);
      if (top == 63) x *= 1.99;  // magnitudes up to just below 2^64
      if (std::fabs(x) * (double)Delta >= 1.8446e19) x *= 0.5;
    }
    {  // slots of these coefficients (message of the user)
      std::vector<ld> ml(m.begin(), m.end());
      std::vector<ld> a(N / 2), b(N / 2);
      E.fwd(ml.data(), a.data(), b.data());
      for (int i = 0; i < N / 2; i++) { zr[i] = (double)a[i]; zi[i] = (double)b[i]; }
    }
    double zs1 = 0, zmean = 0;
    for (int i = 0; i < N / 2; i++) zs1 += std::fabs(zr[i]) + std::fabs(zi[i]);
    zmean = 2 * zs1 / N;
    setcase("encode<%d,%d> Delta=%llu shape %d coefficients up to 2^%d, zr[0]=%.17g round %d", LOGQ, LOGN, (unsigned long long)Delta, shape, top, zr[0], t);
    poison(P->v, r.next());
    auto zr0 = zr, zi0 = zi;
    if (r.coin()) encode<LOGQ, LOGN>(zr.data(), zi.data(), Delta, P->v);
    else {
      auto M = std::make_unique<Message<LOGN>>();
      for (int i = 0; i < N / 2; i++) { M->r[i] = zr[i]; M->i[i] = zi[i]; }
      encode<LOGQ, LOGN>(*M, Delta, P->v);
      cat("encodings through Message");
    }
    if (zr != zr0 || zi != zi0) viol("operand", "encode changed the message");
    if (!canonical(P->v)) viol("canonical", "encoded coefficient not canonical");
    double maxd = 0;
    std::vector<ld> cf(N);
    E.inv(zr.data(), zi.data(), cf.data());
    for (int k = 0; k < N; k++) {
      ld v = cf[k] * (ld)Delta;
      ld tol = 0.5L + 16 * (LOGN + 4) * (ld)U53 * zmean * (ld)Delta + fabsl(v) * 4 * (ld)U53;
      ld g = told(tos(P->v[k]));
      if (!(fabsl(g - v) <= tol)) { viol("encode", "coefficient %d is %.21Lg, exact value %.21Lg (tolerance %.3Lg)", k, g, v, tol); break; }
      maxd = std::max(maxd, (double)fabsl(g - v));
      cat(tol < 0.51L ? "coefficients checked to the nearest integer" : "coefficients checked");
    }
    cover(hmix(hmix(hbytes(zr.data(), 4 * N), hbytes(zi.data(), 4 * N)), hmix(Delta, LOGQ * 64 + LOGN)), zs1 != 0);
    cat("encodings");
    if (top == 63) cat("encodings with coefficients over 2^63");
    // decode(encode(z)): only rounding
    for (int i = 0; i < N / 2; i++) orr[i] = oi[i] = NAN;
    setcase("decode(encode) <%d,%d> Delta=%llu round %d", LOGQ, LOGN, (unsigned long long)Delta, t);
    decode<LOGQ, LOGN>(P->v, Delta, orr.data(), oi.data());
    double lim = 0.5 * N / (double)Delta + 64 * (LOGN + 4) * U53 * zmean * N;
    for (int i = 0; i < N / 2; i++) if (!(std::hypot(orr[i] - zr[i], oi[i] - zi[i]) <= lim)) { viol("decode-encode", "slot %d came back as %.17g%+.17gi, was %.17g%+.17gi, allowed %.3g", i, orr[i], oi[i], zr[i], zi[i], lim); break; }
    // decode of arbitrary coefficients
    int bits = LOGQ < 990 ? LOGQ : 990;
    std::vector<ld> ml(N);
    int dsh = (int)r.below(5), lev = 1 + (int)r.below(bits);
    ld sum = 0;
    for (int k = 0; k < N; k++) {
      Z v;
      if (dsh == 0) v = gen(r, LOGQ);
      else if (dsh == 1) v = genu(r, lev), v = r.coin() ? v : Z(-v);
      else if (dsh == 2) v = zs(r.range(-100, 100));
      else if (dsh == 3) v = r.below(4) ? Z(0) : genu(r, LOGQ);
      else v = (genu(r, lev) >> 1) << 1, v = r.coin() ? v : Z(-v);
      v = smod2(v, LOGQ);
      if (bitlen(v) > 990) v >>= bitlen(v) - 990;
      frz(P2->v[k], v);
      v = tos(P2->v[k]);
      ml[k] = told(v);
      sum += fabsl(ml[k]);
    }
    u64 D2 = r.coin() ? 1ULL << r.below(64) : 1 + (r.next() >> r.below(64));
    for (int i = 0; i < N / 2; i++) orr[i] = oi[i] = lr[i] = li[i] = NAN;
    setcase("decode<%d,%d> Delta=%llu shape %d level %d round %d c[0]=%s", LOGQ, LOGN, (unsigned long long)D2, dsh, lev, t, sz(toz(P2->v[0])).c_str());
    u64 hb = hobj(P2->v);
    decode<LOGQ, LOGN>(P2->v, D2, orr.data(), oi.data());
    int LD = r.coin() ? r.range(0, 63) : r.range(-20, 400);
    if (sum > 0 && log2l(sum) - LD > 1010) LD = 200;
    if (r.below(3)) decode_log<LOGQ, LOGN>(P2->v, LD, lr.data(), li.data());
    else { auto M = std::make_unique<Message<LOGN>>(); decode_log<LOGQ, LOGN>(P2->v, LD, *M); for (int i = 0; i < N / 2; i++) { lr[i] = M->r[i]; li[i] = M->i[i]; } }
    if (hobj(P2->v) != hb) viol("operand", "decode changed the plaintext");
    std::vector<ld> a(N / 2), b(N / 2);
    E.fwd(ml.data(), a.data(), b.data());
    ld tol = (16 * (LOGN + 4) + 4 * (LOGQ / 64 + 2)) * (ld)U53 * sum;
    for (int i = 0; i < N / 2; i++) {
      if (!(fabsl(orr[i] * (ld)D2 - a[i]) <= tol + 1e-290L && fabsl(oi[i] * (ld)D2 - b[i]) <= tol + 1e-290L)) { viol("decode", "slot %d is %.17g%+.17gi, expected %.17Lg%+.17Lgi", i, orr[i], oi[i], a[i] / D2, b[i] / D2); break; }
      ld fr = ldexpl((ld)lr[i], LD), fi = ldexpl((ld)li[i], LD);
      if (!(fabsl(fr - a[i]) <= tol + 1e-290L && fabsl(fi - b[i]) <= tol + 1e-290L)) { viol("decode_log", "LOGDELTA=%d slot %d is %.17g%+.17gi, expected %.17Lg%+.17Lgi", LD, i, lr[i], li[i], ldexpl(a[i], -LD), ldexpl(b[i], -LD)); break; }
    }
    if (r.coin()) {
      auto M = std::make_unique<Message<LOGN>>();
      decode<LOGQ, LOGN>(P2->v, D2, *M);
      for (int i = 0; i < N / 2; i++) if (M->r[i] != orr[i] || M->i[i] != oi[i]) { viol("decode", "the Message variant of decode differs at slot %d", i); break; }
      cat("decodings through Message");
    }
    cover(hmix(hb, hmix(D2, LD)), sum != 0);
    cat("decodings", 2);
    if (LOGQ > 990 || t % 4 == 0) {  // coefficients and scales beyond the range of double, quotient within it
      int lv2 = LOGQ > 990 ? 990 + (int)r.below(LOGQ - 989) : 1 + (int)r.below(LOGQ), LD2 = lv2 + r.range(-900, 60);
      sum = 0;
      for (int k = 0; k < N; k++) {
        Z v = smod2(r.below(3) ? genu(r, lv2) : gen(r, lv2), lv2);
        frz(P2->v[k], v);
        ml[k] = told(tos(P2->v[k]));
        sum += fabsl(ml[k]);
      }
      for (int i = 0; i < N / 2; i++) lr[i] = li[i] = NAN;
      setcase("decode_log<%d,%d> of %d-bit coefficients, LOGDELTA=%d round %d c[0]=%s", LOGQ, LOGN, lv2, LD2, t, sz(toz(P2->v[0])).c_str());
      u64 hw = hobj(P2->v);
      decode_log<LOGQ, LOGN>(P2->v, LD2, lr.data(), li.data());
      if (hobj(P2->v) != hw) viol("operand", "decode_log changed the plaintext");
      E.fwd(ml.data(), a.data(), b.data());
      ld tl = (16 * (LOGN + 4) + 4 * (LOGQ / 64 + 2)) * (ld)U53 * sum;
      for (int i = 0; i < N / 2; i++) {
        ld fr = ldexpl((ld)lr[i], LD2), fi = ldexpl((ld)li[i], LD2);
        if (!(fabsl(fr - a[i]) <= tl + ldexpl(1e-290L, LD2) && fabsl(fi - b[i]) <= tl + ldexpl(1e-290L, LD2))) { viol("decode_log", "LOGDELTA=%d slot %d is %.17g%+.17gi, expected %.17Lg%+.17Lgi", LD2, i, lr[i], li[i], ldexpl(a[i], -LD2), ldexpl(b[i], -LD2)); break; }
      }
      cover(hmix(hw, LD2), sum != 0);
      cat(LOGQ > 990 ? "decodings beyond the range of double" : "decodings");
    }
    if (!P->ok() || !P2->ok()) viol("overrun", "write outside a plaintext");
  }
  cat("(width, N) pairs");
  sample("%s", casebuf());
}
template <int LOGN, int... Q> void reg(int per) { (go<Q, LOGN>(per), ...); }
static void body() {
  int k = (int)scale(4, 60);
#if CHUNK == 0
  reg<2, 20, 31, 40, 60, 63, 64, 65, 66, 70, 100, 127, 128, 129, 192, 200, 300, 450, 640, 990, 1200, 1450, 2900>(300 * k);
#elif CHUNK == 1
  reg<4, 33, 50, 61, 64, 65, 80, 120, 128, 191, 256, 257, 700, 1000, 1400, 3000>(100 * k); reg<3, 45, 62, 90, 130, 850>(100 * k);
#elif CHUNK == 2
  reg<6, 30, 55, 64, 67, 110, 128, 180, 320, 500, 850, 1450>(30 * k); reg<5, 60, 66, 150, 1450>(50 * k);
#elif CHUNK == 3
  reg<9, 60, 66, 128, 850, 1450>(6 * k); reg<8, 60, 90, 200>(12 * k); reg<7, 40, 64, 1100>(20 * k);
#elif CHUNK == 4
  reg<10, 60, 100, 1450>(4 * k); reg<11, 80>(3 * k); reg<12, 66>(2 * k);
#else
  reg<13, 60>(2 * k); reg<14, 130>(k); reg<15, 64>(k); reg<16, 60>(k); reg<17, 62>((k + 1) / 2);
#endif
}
VH_MAIN(body)
