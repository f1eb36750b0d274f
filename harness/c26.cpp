// C26: floating-point plaintext model and messages against the exact ring and complex arithmetic.
#include <cmath>
#include <cassert>
#include "impl/message.h"
#include "impl/simple_plaintext.h"
#include "impl/plaintext.h"
#define VH_HEAAN
#include "slot.h"
using namespace vh;

template <int LOGN> u64 hp(const SimplePlaintext<LOGN> &p) { return hbytes(p.data, sizeof p.data, LOGN); }
template <int LOGN> u64 hm(const Message<LOGN> &p) { return hmix(hbytes(p.r, sizeof p.r, LOGN), hbytes(p.i, sizeof p.i)); }
template <int LOGN> void genmsg(Rng &r, Message<LOGN> &z, int kind) {
  for (int i = 0; i < (1 << (LOGN - 1)); i++) switch (kind) {
    case 0: z.r[i] = r.sym(); z.i[i] = r.sym(); break;
    case 1: z.r[i] = r.range(-9, 9); z.i[i] = r.range(-9, 9); break;
    case 2: z.r[i] = i == 0; z.i[i] = -(i == 1); break;
    case 3: z.r[i] = 1; z.i[i] = 0; break;
    case 4: z.r[i] = r.sym() * 1e5; z.i[i] = r.sym() * 1e-5; break;
    default: z.r[i] = r.coin() ? 1 : -1; z.i[i] = r.coin() ? 1 : -1;
  }
}
template <int LOGN> void plain(int reps) {
  const int N = 1 << LOGN, L = 120;
  Rng r = rng_for("plain", LOGN);
  auto z = mk<Message<LOGN>>(), y = mk<Message<LOGN>>(), y2 = mk<Message<LOGN>>();
  auto P = mk<SimplePlaintext<LOGN>>(), Q = mk<SimplePlaintext<LOGN>>(), S = mk<SimplePlaintext<LOGN>>(), W = mk<SimplePlaintext<LOGN>>();
  auto E = mk<R_Q<L, N>>(), F = mk<R_Q<L, N>>(), G = mk<R_Q<L, N>>();
  for (int rep = 0; rep < reps; rep++) {
    int kind = (int)r.below(6), ld_ = r.range(4, 46);
    u64 D = r.coin() ? 1ULL << ld_ : (1ULL << ld_) - 1 - r.below(1ULL << (ld_ - 1));
    genmsg<LOGN>(r, z->v, kind);
    double big = 0;
    for (int i = 0; i < N / 2; i++) big = std::max(big, std::hypot(z->v.r[i], z->v.i[i]));
    if (big * (double)D * 2 > 0x1p52) continue;
    u64 hz = hm(z->v);
    poison(P->v, r.next()); poison(E->v, r.next());
    setcase("SimplePlaintext N %d scale %llu message kind %d case %d seed %llu", N, (unsigned long long)D, kind, rep, (unsigned long long)st().seed);
    encode<LOGN>(z->v, D, P->v);
    encode<L, LOGN>(z->v, D, E->v);
    Poly e = tops(E->v);
    for (int i = 0; i < N; i++) if (!(abs(Z(P->v.data[i] == P->v.data[i] ? P->v.data[i] : 0) - e[i]) <= 1) || P->v.data[i] != P->v.data[i] || P->v.data[i] != std::rint(P->v.data[i])) { viol("encode", "coefficient %d is %.17g, exact implementation has %s", i, P->v.data[i], sz(e[i]).c_str()); break; }
    poison(S->v, r.next());
    encode_raw<LOGN>(z->v, D, S->v);
    std::vector<ld> cf(N);
    emb(N).inv(z->v.r, z->v.i, cf.data());
    for (int i = 0; i < N; i++) {
      ld w = cf[i] * D;
      ld tol = 8.0L * LOGN * U53 * big * D + 1e-300L;
      if (!(std::fabs(S->v[i] - w) <= tol)) { viol("encode_raw", "raw coefficient %d is %.17g, inverse embedding times the scale is %.17Lg", i, S->v[i], w); break; }
      if (!(std::fabs(P->v[i] - w) <= 0.5L + tol)) { viol("encode", "coefficient %d is %.17g, inverse embedding times the scale is %.17Lg", i, P->v[i], w); break; }
    }
    for (int i = 0; i < N; i++) {
      ld w = cf[i] * D, g = (ld)e[i].get_d();
      if (!(std::fabs(g - w) <= 0.5L + 8.0L * LOGN * U53 * big * D)) { viol("encode", "exact coefficient %d is %s, inverse embedding times the scale is %.17Lg", i, sz(e[i]).c_str(), w); break; }
    }
    if (hm(z->v) != hz) viol("operand", "encoding changed the message");
    {  // the same message at scales and sizes beyond 64-bit integers
      auto &zz = y->v;
      int up = r.range(-40, 160);
      u64 D2 = r.coin() ? 1ULL << r.range(40, 63) : ~0ULL >> r.range(0, 20);
      for (int i = 0; i < N / 2; i++) { zz.r[i] = std::ldexp(z->v.r[i], up); zz.i[i] = std::ldexp(z->v.i[i], up); }
      poison(S->v, r.next()); poison(W->v, r.next());
      encode<LOGN>(zz, D2, S->v);
      encode_raw<LOGN>(zz, D2, W->v);
      ld b2 = std::ldexp((ld)big, up), tol = (8.0L * LOGN + 4) * U53 * b2 * D2 + 1e-300L;
      for (int i = 0; i < N; i++) {
        ld w = std::ldexp(cf[i], up) * D2;
        if (!(std::fabs(W->v[i] - w) <= tol)) { viol("encode_raw", "scale %llu, message of size 2^%d: raw coefficient %d is %.17g, inverse embedding times the scale is %.17Lg", (unsigned long long)D2, up, i, W->v[i], w); break; }
        if (!(std::fabs(S->v[i] - w) <= 0.5L + tol) || S->v[i] != std::rint(S->v[i])) { viol("encode", "scale %llu, message of size 2^%d: coefficient %d is %.17g, inverse embedding times the scale is %.17Lg", (unsigned long long)D2, up, i, S->v[i], w); break; }
      }
      decode<LOGN>(W->v, D2, y2->v);
      ld t2 = 40.0L * LOGN * U53 * b2 * std::sqrt((ld)N) + 1e-300L;
      for (int i = 0; i < N / 2; i++)
        if (!(std::fabs(y2->v.r[i] - zz.r[i]) <= t2) || !(std::fabs(y2->v.i[i] - zz.i[i]) <= t2)) { viol("decode", "scale %llu, message of size 2^%d: slot %d comes back as (%.17g,%.17g), was (%.17g,%.17g)", (unsigned long long)D2, up, i, y2->v.r[i], y2->v.i[i], zz.r[i], zz.i[i]); break; }
      cat("encodings of any size");
    }
    cover(hmix(hz, D), kind != 6);
    cat("encodings");
    // decode
    u64 hpv = hp(P->v);
    decode<LOGN>(P->v, D, y->v);
    decode<L, LOGN>(E->v, D, y2->v);
    for (int i = 0; i < N / 2; i++) {
      double t = 1e-14 * LOGN * (big + 1), rt = 0.75 * N / (double)D + t;
      if (!(std::fabs(y->v.r[i] - y2->v.r[i]) <= t) || !(std::fabs(y->v.i[i] - y2->v.i[i]) <= t)) { viol("decode", "slot %d decodes to (%.17g,%.17g), exact implementation (%.17g,%.17g)", i, y->v.r[i], y->v.i[i], y2->v.r[i], y2->v.i[i]); break; }
      if (!(std::fabs(y->v.r[i] - z->v.r[i]) <= rt) || !(std::fabs(y->v.i[i] - z->v.i[i]) <= rt)) { viol("decode", "slot %d comes back as (%.17g,%.17g), was (%.17g,%.17g)", i, y->v.r[i], y->v.i[i], z->v.r[i], z->v.i[i]); break; }
    }
    if (hp(P->v) != hpv) viol("operand", "decoding changed the plaintext");
    // ring operations on values that double holds exactly
    int bits = r.range(1, (52 - LOGN) / 2);
    Poly a(N), b(N);
    for (int i = 0; i < N; i++) {
      long long m = (1LL << bits) - 1;
      long long u = kind == 3 ? m : kind == 5 ? (r.coin() ? m : -m) : (long long)r.below(2 * m + 1) - m, v = kind == 3 ? -m : kind == 2 ? (i == 1) : (long long)r.below(2 * m + 1) - m;
      P->v[i] = (double)u; Q->v[i] = (double)v;
      a[i] = vh::zs(u); b[i] = vh::zs(v);
    }
    u64 h1 = hp(P->v), h2 = hp(Q->v);
    auto chk = [&](const SimplePlaintext<LOGN> &g, const Poly &w, const char *what) {
      for (int i = 0; i < N; i++) if (!(g[i] == w[i].get_d())) { viol(what, "%s: coefficient %d is %.17g, exact ring gives %s", what, i, g[i], w[i].get_str().c_str()); return; }
      cat(what);
    };
    setcase("SimplePlaintext ring operations N %d coefficients of %d bits kind %d case %d seed %llu", N, bits, kind, rep, (unsigned long long)st().seed);
    poison(S->v, r.next());
    conv<LOGN>(P->v, Q->v, S->v);
    chk(S->v, negacyclic(a, b), "multiplication");
    frp(E->v, a); frp(F->v, b);
    conv<L, N>(E->v, F->v, G->v);
    chk(S->v, tops(G->v), "multiplication");
    Poly s(N), d(N);
    for (int i = 0; i < N; i++) { s[i] = a[i] + b[i]; d[i] = a[i] - b[i]; }
    poison(S->v, r.next());
    add<LOGN>(P->v, Q->v, S->v); chk(S->v, s, "addition");
    poison(S->v, r.next());
    sub<LOGN>(P->v, Q->v, S->v); chk(S->v, d, "subtraction");
    poison(S->v, r.next());
    rotate_once<LOGN>(P->v, S->v); chk(S->v, galp(a, 5 % (2 * N)), "rotation by one");
    int amt = rep < N + 3 && N <= 64 ? rep : (int)r.below(N <= 256 ? 2 * N : 12);
    poison(S->v, r.next());
    rotate<LOGN>(P->v, S->v, amt); chk(S->v, galp(a, p5(amt, N)), "rotation");
    rot<L, N>(E->v, G->v, amt); chk(S->v, tops(G->v), "rotation");
    ld sq = 0;
    for (int i = 0; i < N; i++) sq += (ld)P->v[i] * P->v[i];
    double g = square_sum<LOGN>(P->v);
    if (!(std::fabs(g - sq) <= 1e-14L * N * sq)) viol("square_sum", "plaintext square sum %.17g, expected %.17Lg", g, sq);
    g = norm<LOGN>(P->v);
    if (!(std::fabs(g - sqrtl(sq)) <= 1e-14L * N * sqrtl(sq))) viol("norm", "plaintext norm %.17g, expected %.17Lg", g, sqrtl(sq));
    if (hp(P->v) != h1 || hp(Q->v) != h2) viol("operand", "a plaintext operation changed its input");
    // a fresh plaintext is zero
    SimplePlaintext<LOGN> fresh;
    for (int i = 0; i < N; i++) if (fresh[i] != 0) { viol("fresh", "a new plaintext is not zero"); break; }
    if (!P->ok() || !Q->ok() || !S->ok() || !y->ok() || !y2->ok() || !E->ok() || !F->ok() || !G->ok() || !z->ok()) viol("overrun", "write outside an object");
    cover(hmix(hmix(h1, h2), amt), true);
  }
}
template <int LOGN> void messages(int reps) {
  const int H = 1 << (LOGN - 1);
  Rng r = rng_for("msg", LOGN);
  auto a = mk<Message<LOGN>>(), b = mk<Message<LOGN>>(), c = mk<Message<LOGN>>();
  auto g = mk<Message<LOGN + 1>>();
  for (int rep = 0; rep < reps; rep++) {
    int ka = (int)r.below(6), kb = (int)r.below(6);
    genmsg<LOGN>(r, a->v, ka); genmsg<LOGN>(r, b->v, kb);
    u64 ha = hm(a->v), hb = hm(b->v);
    setcase("message operations of %d slots kinds %d %d case %d seed %llu", H, ka, kb, rep, (unsigned long long)st().seed);
    auto chk = [&](const char *what, auto f) {
      for (int i = 0; i < H; i++) {
        C w = f(C(a->v.r[i], a->v.i[i]), C(b->v.r[i], b->v.i[i]));
        ld t = 4e-16L * (std::abs(a->v.r[i]) + std::abs(a->v.i[i]) + 1) * (std::abs(b->v.r[i]) + std::abs(b->v.i[i]) + 1);
        if (!(std::abs(C(c->v.r[i], c->v.i[i]) - w) <= t)) { viol(what, "%s: slot %d is (%.17g,%.17g), expected (%.17Lg,%.17Lg)", what, i, c->v.r[i], c->v.i[i], w.real(), w.imag()); return; }
      }
      cat(what);
    };
    poison(c->v, r.next()); add<LOGN>(a->v, b->v, c->v); chk("message addition", [](C x, C y) { return x + y; });
    poison(c->v, r.next()); sub<LOGN>(a->v, b->v, c->v); chk("message subtraction", [](C x, C y) { return x - y; });
    poison(c->v, r.next()); mul<LOGN>(a->v, b->v, c->v); chk("message multiplication", [](C x, C y) { return x * y; });
    ld sq = 0, mx = 0;
    for (int i = 0; i < H; i++) { ld q = (ld)a->v.r[i] * a->v.r[i] + (ld)a->v.i[i] * a->v.i[i]; sq += q; mx = std::max(mx, q); }
    double v;
    v = square_sum<LOGN>(a->v); if (!(std::fabs(v - sq) <= 1e-14L * H * sq)) viol("square_sum", "square sum %.17g, expected %.17Lg", v, sq);
    v = norm<LOGN>(a->v); if (!(std::fabs(v - sqrtl(sq)) <= 1e-14L * H * sqrtl(sq))) viol("norm", "norm %.17g, expected %.17Lg", v, sqrtl(sq));
    v = sup_norm<LOGN>(a->v); if (!(std::fabs(v - sqrtl(mx)) <= 1e-14L * sqrtl(mx))) viol("sup_norm", "largest slot %.17g, expected %.17Lg", v, sqrtl(mx));
    poison(g->v, r.next());
    aggregate<LOGN>(a->v, b->v, g->v);
    for (int i = 0; i < 2 * H; i++) {
      const Message<LOGN> &s = i < H ? a->v : b->v;
      if (g->v.r[i] != s.r[i % H] || g->v.i[i] != s.i[i % H]) { viol("aggregate", "slot %d of the concatenation is wrong", i); break; }
    }
    Message<LOGN> cp(a->v), nw;
    if (hm(cp) != ha) viol("copy", "copy of a message differs");
    for (int i = 0; i < H; i++) if (nw.r[i] != 0 || nw.i[i] != 0) { viol("fresh", "a new message is not zero"); break; }
    if (hm(a->v) != ha || hm(b->v) != hb) viol("operand", "a message operation changed its input");
    if (!a->ok() || !b->ok() || !c->ok() || !g->ok()) viol("overrun", "write outside a message");
    cover(hmix(ha, hb), true);
  }
}
// matrix given by K (generalised) diagonals as messages, and by sparse diagonals; message and plaintext versions
template <int LOGN, int K, int L, int LD> void matvec(int reps) {
  const int N = 1 << LOGN, H = N / 2;
  Rng r = rng_for("matvec", (LOGN * 64 + K) * 4096 + L);
  struct MM { Message<LOGN> m[K]; };
  auto A = std::make_unique<Guarded<MM>>();
  auto z = mk<Message<LOGN>>(), y = mk<Message<LOGN>>(), w2 = mk<Message<LOGN>>();
  auto P = mk<R_Q<L, N>>(), O = mk<R_Q<L, N>>();
  for (int rep = 0; rep < reps; rep++) {
    int kz = (int)r.below(4), ka = (int)r.below(4);
    genmsg<LOGN>(r, z->v, kz);
    for (int k = 0; k < K; k++) genmsg<LOGN>(r, A->v.m[k], ka);
    CV w(H); std::vector<ld> t(H, 0);
    ld rs = 0, zs_ = 0;
    for (int i = 0; i < H; i++) { zs_ = std::max(zs_, std::abs(C(z->v.r[i], z->v.i[i]))); for (int k = 0; k < K; k++) {
      int j = (i + k) % H;
      C p = C(A->v.m[k].r[i], A->v.m[k].i[i]) * C(z->v.r[j], z->v.i[j]);
      w[i] += p; t[i] += std::abs(p);
    } }
    for (int k = 0; k < K; k++) { ld m = 0; for (int i = 0; i < H; i++) m = std::max(m, std::abs(C(A->v.m[k].r[i], A->v.m[k].i[i]))); rs += m; }
    u64 hz = hm(z->v), hA = 1;
    auto hashA = [&] { u64 x = 1; for (auto &m : A->v.m) x = hmix(x, hm(m)); return x; };
    hA = hashA();
    setcase("matrix-vector product N %d with %d diagonals width %d scale 2^%d kinds %d %d case %d seed %llu", N, K, L, LD, kz, ka, rep, (unsigned long long)st().seed);
    poison(y->v, r.next());
    matrix_vector_product<LOGN, K>(z->v, A->v.m, y->v);
    for (int i = 0; i < H; i++) if (!(std::abs(C(y->v.r[i], y->v.i[i]) - w[i]) <= 1e-15L * K * (t[i] + 1e-9L) * 4)) { viol("message matvec", "slot %d is (%.17g,%.17g), expected (%.17Lg,%.17Lg)", i, y->v.r[i], y->v.i[i], w[i].real(), w[i].imag()); break; }
    cat("message matrix-vector products");
    encode<L, LOGN>(z->v, 1ULL << LD, P->v);
    u64 hP = hobj(P->v);
    poison(O->v, r.next());
    matrix_vector_product<L, LOGN, K>(P->v, A->v.m, 1ULL << LD, O->v);
    decode_log<L, LOGN>(O->v, 2 * LD, w2->v);
    ld enc = 0.51L * N * std::ldexp(1.0L, -LD);
    ld tol = K * enc * (zs_ + enc) + rs * enc + 1e-13L * rs * zs_ * N;
    auto chk = [&](const char *what) {
      ld m = 0;
      for (int i = 0; i < H; i++) { ld d = std::abs(C(w2->v.r[i], w2->v.i[i]) - w[i]); if (!(d <= m)) m = d; }
      if (!(m <= tol)) viol(what, "%s: error %.3Lg, allowed %.3Lg", what, m, tol);
    };
    chk("plaintext matvec");
    cat("plaintext matrix-vector products");
    // exact: the product is the sum of encoded diagonals times rotations
    if (rep % 3 == 0) {
      Poly p = tops(P->v), acc(N);
      auto V = mk<R_Q<L, N>>();
      for (int k = 0; k < K; k++) { encode<L, LOGN>(A->v.m[k], 1ULL << LD, V->v); Poly c = negacyclic(tops(V->v), galp(p, p5(k, N))); for (int i = 0; i < N; i++) acc[i] += c[i]; }
      for (int i = 0; i < N; i++) if (toz(O->v[i]) != umod2(acc[i], L)) { viol("plaintext matvec", "coefficient %d differs from the sum of products", i); break; }
    }
    if constexpr (K == 3) {
      typedef SparseDiagonal<H, 3> SD;
      auto S = mk<SD[2]>();
      std::vector<int> off(3);
      do { for (auto &o : off) o = (int)r.below(H); } while (off[0] == off[1] || off[1] == off[2] || off[0] == off[2]);
      for (int q = 0; q < 2; q++) S->v[q].setzero();
      for (int k = 0; k < 3; k++) for (int q = 0; q < 2; q++) { S->v[q].off[k] = off[k]; bool empty = r.below(5) == 0; S->v[q].zero[k] = empty; for (int i = 0; i < H; i++) S->v[q].vec[k][i] = empty ? 0 : (q ? A->v.m[k].i[i] : A->v.m[k].r[i]); }
      for (int i = 0; i < H; i++) { w[i] = 0; for (int k = 0; k < 3; k++) { int j = (i + off[k]) % H; w[i] += C(S->v[0].vec[k][i], S->v[1].vec[k][i]) * C(z->v.r[j], z->v.i[j]); } }
      setcase("sparse plaintext matrix-vector product N %d offsets %d %d %d case %d seed %llu", N, off[0], off[1], off[2], rep, (unsigned long long)st().seed);
      poison(O->v, r.next());
      matrix_vector_product<L, LOGN>(P->v, S->v[0], S->v[1], 1ULL << LD, O->v);
      decode_log<L, LOGN>(O->v, 2 * LD, w2->v);
      chk("sparse plaintext matvec");
      matrix_vector_product<LOGN, 3>(z->v, S->v[0], S->v[1], y->v);
      for (int i = 0; i < H; i++) if (!(std::abs(C(y->v.r[i], y->v.i[i]) - w[i]) <= 1e-13L * (rs * zs_ + 1e-9L))) { viol("sparse message matvec", "slot %d wrong", i); break; }
      if (!S->ok()) viol("overrun", "write outside a matrix");
      cat("sparse plaintext matrix-vector products");
    }
    if (hm(z->v) != hz || hashA() != hA || hobj(P->v) != hP) viol("operand", "a matrix-vector product changed its input");
    if (!A->ok() || !z->ok() || !y->ok() || !P->ok() || !O->ok() || !w2->ok()) viol("overrun", "write outside an object");
    cover(hmix(hz, hA), true);
  }
}
static void body() {
  int k = (int)scale(1, 15);
#if CHUNK == 0
  plain<2>(300 * k); plain<3>(300 * k); plain<4>(300 * k); plain<5>(200 * k); plain<6>(150 * k); plain<7>(60 * k); plain<8>(20 * k); plain<10>(3 * k); plain<12>(3 * k); plain<13>(2 * k); plain<15>(1 * k); plain<16>(1 * k);
#elif CHUNK == 1
  messages<1>(300 * k); messages<2>(300 * k); messages<3>(300 * k); messages<5>(300 * k); messages<8>(100 * k); messages<12>(20 * k); messages<16>(2 * k);
#else
  matvec<2, 1, 130, 50>(60 * k); matvec<3, 3, 130, 50>(60 * k); matvec<3, 4, 128, 45>(60 * k); matvec<4, 3, 150, 50>(60 * k); matvec<4, 8, 120, 40>(40 * k); matvec<5, 16, 200, 30>(20 * k); matvec<6, 3, 130, 50>(20 * k);
  matvec<7, 5, 140, 45>(6 * k); matvec<9, 3, 130, 50>(2 * k); matvec<4, 3, 1450, 50>(10 * k); matvec<12, 3, 130, 50>(1 * k);
#endif
  sample("%s", casebuf());
}
VH_MAIN(body)
