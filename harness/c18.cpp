// C18: homomorphic linear transforms, every variant, against the matrix-vector product in long double.
#include "HEAAN/linear_transform.h"
#define VH_HEAAN
#include "he.h"
#include "slot.h"
using namespace vh;
static CV mapply(const CM &A, const CV &z) {
  CV y(z.size());
  for (size_t i = 0; i < z.size(); i++) for (size_t j = 0; j < z.size(); j++) y[i] += A[i][j] * z[j];
  return y;
}
template <int H, int S> CM full(const SparseDiagonal<H, S> &r, const SparseDiagonal<H, S> &i) {
  CM A(H, CV(H));
  for (int s = 0; s < S; s++) if (!r.zero[s] || !i.zero[s]) for (int k = 0; k < H; k++) A[k][(k + r.off[s]) % H] += C(r.vec[s][k], i.vec[s][k]);
  return A;
}
template <int H, int S> ld rowsum(const SparseDiagonal<H, S> &r, const SparseDiagonal<H, S> &i) {
  ld t = 0;
  for (int s = 0; s < S; s++) if (!r.zero[s] || !i.zero[s]) { ld m = 0; for (int k = 0; k < H; k++) m = std::max(m, std::abs(C(r.vec[s][k], i.vec[s][k]))); t += m; }
  return t;
}
// error allowed after one transform: every diagonal contributes its encoding error and one key switch
static ld step(int N, int h, int live, ld rs, ld zsup, ld err, int login, int logdelta) {
  ld B = 8 * N + (h + 3) / 2 + 1;
  ld enc = 0.51L * N * std::ldexp(1.0L, -logdelta) + rs * N * 1e-15L;
  ld ks = (rs + live * enc) * N * B * std::ldexp(1.0L, -login);
  return rs * err + live * enc * (zsup + err) + ks + 1e-17L * rs * zsup * N;
}
static double ent(Rng &r, int kind) {
  switch (kind) {
    case 0: return r.sym();
    case 1: return (double)r.range(-2, 2);
    case 2: return r.below(3) ? 0.0 : r.sym() * 8;
    case 3: return r.sym() * 1e-3;
    default: return r.coin() ? 1 : -1;
  }
}
template <int H, int S> void gensd(Rng &r, SparseDiagonal<H, S> &a, SparseDiagonal<H, S> &b, int kind) {
  std::vector<int> p(H);
  for (int i = 0; i < H; i++) p[i] = i;
  for (int i = 0; i < std::min(S, H); i++) std::swap(p[i], p[i + r.below(H - i)]);
  if (r.below(3) == 0) for (int i = 0; i < H; i++) if (p[i] == 0) std::swap(p[i], p[r.below(std::min(S, H))]);
  memset((void *)&a, 0, sizeof a); memset((void *)&b, 0, sizeof b);
  for (int s = 0; s < S; s++) {
    int mode = s < H ? (int)r.below(6) : 0;
    a.off[s] = b.off[s] = s < H ? p[s] : 0;
    a.zero[s] = mode == 0 || mode == 1; b.zero[s] = mode == 0 || mode == 2;
    for (int i = 0; i < H; i++) {
      a.vec[s][i] = a.zero[s] ? 0 : ent(r, kind);
      b.vec[s][i] = b.zero[s] ? 0 : ent(r, kind);
    }
    // a diagonal marked empty in both parts contributes nothing whatever it holds
    if (mode == 0 && r.coin()) for (int i = 0; i < H; i++) { a.vec[s][i] = 5; b.vec[s][i] = -3; }
  }
}
template <int H, int S> u64 hsd(const SparseDiagonal<H, S> &a) {
  u64 h = H * 100 + S;
  for (int s = 0; s < S; s++) { h = hmix(h, a.off[s] * 2 + a.zero[s]); h = hbytes(a.vec[s], sizeof a.vec[s], h); }
  return h;
}
template <int L, int LOGN, int LD> void dense(int reps) {
  const int N = 1 << LOGN, H = N / 2;
  Rng r = rng_for("dense", L * 64 + LOGN);
  auto ct = mk<R_Q_square<L, N>>(), out = mk<R_Q_square<L, N>>();
  auto key = mk<R_Q_square<2 * L, N>>();
  for (int rep = 0; rep < reps; rep++) {
    auto s = genkey(r, N, rep);
    int h = weightof(s), kind = (int)r.below(5);
    std::vector<int> sr(N);
    rot<N>(s.data(), sr.data());
    HEAAN<L, N>::swkgen(sr.data(), s.data(), key->v);
    struct M { double a[H][H], b[H][H]; };
    auto m = mk<M>();
    CM A(H, CV(H));
    ld rs = 0;
    for (int i = 0; i < H; i++) for (int j = 0; j < H; j++) { m->v.a[i][j] = ent(r, kind); m->v.b[i][j] = ent(r, kind); A[i][j] = C(m->v.a[i][j], m->v.b[i][j]); }
    for (int k = 0; k < H; k++) { ld mx = 0; for (int i = 0; i < H; i++) mx = std::max(mx, std::abs(A[i][(i + k) % H])); rs += mx; }
    int lin = LD;
    genmsg(r, ct->v, s, lin, (int)r.below(5));
    poison(out->v, r.next());
    u64 hc = hct(ct->v), hk = hct(key->v), hm = hbytes(&m->v, sizeof m->v);
    setcase("dense transform width %d N %d scale 2^%d key weight %d entries of kind %d, case %d seed %llu", L, N, LD, h, kind, rep, (unsigned long long)st().seed);
    linear_transform<L, LOGN, LD>(m->v.a, m->v.b, ct->v, key->v, out->v);
    CV z = slots<N>(phase(ct->v, s), L, lin);
    // the ciphertext is rotated up to H-1 times in a row
    ld tol = step(N, h, H, rs, sup(z), std::ldexp((ld)N * H * (8 * N + h), -lin), lin, LD);
    verify<L, N>(out->v, s, lin + LD, mapply(A, z), tol, "dense transform");
    if (hct(ct->v) != hc || hct(key->v) != hk || hbytes(&m->v, sizeof m->v) != hm) viol("operand", "dense transform changed an input");
    if (!ct->ok() || !out->ok() || !key->ok() || !m->ok()) viol("overrun", "write outside an object");
    cover(hmix(hc, hm), true);
    cat("dense transforms");
  }
}
template <int L, int LOGN, int LD, int S> void sparse(int reps) {
  const int N = 1 << LOGN, H = N / 2;
  Rng r = rng_for("sparse", (L * 64 + LOGN) * 64 + S);
  typedef SparseDiagonal<H, S> SD;
  auto ct = mk<R_Q_square<L, N>>(), o1 = mk<R_Q_square<L, N>>(), o2 = mk<R_Q_square<L, N>>();
  auto keys = mk<R_Q_square<2 * L, N>[S]>();
  auto A = mk<SD[2]>();
  for (int rep = 0; rep < reps; rep++) {
    auto s = genkey(r, N, rep);
    int h = weightof(s), kind = (int)r.below(5);
    gensd<H, S>(r, A->v[0], A->v[1], kind);
    const R_Q_square<2 * L, N> *kp[S];
    int live = 0, need = 0;
    for (int d = 0; d < S; d++) {
      bool l = !A->v[0].zero[d] || !A->v[1].zero[d];
      live += l;
      kp[d] = nullptr;
      if (l && A->v[0].off[d] != 0) {
        std::vector<int> sr(N);
        rot<N>(s.data(), sr.data(), A->v[0].off[d]);
        HEAAN<L, N>::swkgen(sr.data(), s.data(), keys->v[d]);
        kp[d] = &keys->v[d];
        need++;
      }
    }
    int lin = LD;
    genmsg(r, ct->v, s, lin, (int)r.below(5));
    CV z = slots<N>(phase(ct->v, s), L, lin);
    CM F = full<H, S>(A->v[0], A->v[1]);
    ld rs = rowsum<H, S>(A->v[0], A->v[1]);
    ld tol = step(N, h, live, rs, sup(z), 0, lin, LD) + 1e-30L;
    u64 hc = hct(ct->v), hm = hmix(hsd(A->v[0]), hsd(A->v[1]));
    auto s0 = s;
    poison(o1->v, r.next()); poison(o2->v, r.next());
    setcase("sparse transform with keys width %d N %d S %d live %d keys %d scale 2^%d key weight %d kind %d case %d seed %llu", L, N, S, live, need, LD, h, kind, rep, (unsigned long long)st().seed);
    linear_transform<L, LOGN, LD, S>(A->v[0], A->v[1], ct->v, kp, o1->v);
    verify<L, N>(o1->v, s, lin + LD, mapply(F, z), tol, "sparse transform with rotation keys");
    // the same on another result object gives the same bits
    linear_transform<L, LOGN, LD, S>(A->v[0], A->v[1], ct->v, kp, o2->v);
    if (!same(o1->v, o2->v)) viol("history", "result depends on what the result object held");
    cat("sparse transforms with keys");
    poison(o2->v, r.next());
    setcase("sparse transform with secret key width %d N %d S %d live %d scale 2^%d key weight %d kind %d case %d seed %llu", L, N, S, live, LD, h, kind, rep, (unsigned long long)st().seed);
    linear_transform<L, LOGN, LD, S>(A->v[0], A->v[1], ct->v, s.data(), o2->v);
    verify<L, N>(o2->v, s, lin + LD, mapply(F, z), tol, "sparse transform with the secret key");
    cat("sparse transforms with secret key");
    if (hct(ct->v) != hc || hmix(hsd(A->v[0]), hsd(A->v[1])) != hm || s != s0) viol("operand", "sparse transform changed an input");
    if (!ct->ok() || !o1->ok() || !o2->ok() || !keys->ok() || !A->ok()) viol("overrun", "write outside an object");
    cover(hmix(hc, hm), live > 0);
    cat("diagonals marked empty", S - live);
  }
}
template <int L, int LOGN, int LD, int S, int D> void serial(int reps) {
  const int N = 1 << LOGN, H = N / 2;
  Rng r = rng_for("serial", ((L * 64 + LOGN) * 64 + S) * 64 + D);
  typedef SparseDiagonal<H, S> SD;
  auto ct = mk<R_Q_square<L, N>>(), out = mk<R_Q_square<L, N>>();
  auto Ar = mk<SD[D]>(), Ai = mk<SD[D]>();
  for (int rep = 0; rep < reps; rep++) {
    auto s = genkey(r, N, rep);
    int h = weightof(s), kind = (int)r.below(5);
    for (int d = 0; d < D; d++) gensd<H, S>(r, Ar->v[d], Ai->v[d], kind);
    int lin = LD;
    genmsg(r, ct->v, s, lin, (int)r.below(5));
    CV z = slots<N>(phase(ct->v, s), L, lin);
    CV want = z;
    std::vector<ld> rs(D); std::vector<int> live(D);
    for (int d = 0; d < D; d++) {
      want = mapply(full<H, S>(Ar->v[d], Ai->v[d]), want);
      rs[d] = rowsum<H, S>(Ar->v[d], Ai->v[d]);
      live[d] = 0;
      for (int k = 0; k < S; k++) live[d] += !Ar->v[d].zero[k] || !Ai->v[d].zero[k];
    }
    u64 hc = hct(ct->v), hm = 1;
    auto hash = [&] { u64 x = 1; for (int d = 0; d < D; d++) x = hmix(hmix(x, hsd(Ar->v[d])), hsd(Ai->v[d])); return x; };
    hm = hash();
    auto s0 = s;
    auto tolg = [&](int g) {
      ld err = 0, zs = sup(z);
      int lg = lin;
      for (int d = 0; d < D; d += g) {
        ld R = 1; ld lv = 1;
        for (int k = 0; k < g; k++) { R *= rs[d + k]; lv *= live[d + k]; }
        err = step(N, h, (int)lv, R, zs, err, lg, LD);
        zs *= R; lg += LD;
      }
      return err + 1e-30L;
    };
    auto go = [&](int g, const char *what, auto f) {
      poison(out->v, r.next());
      setcase("%s width %d N %d S %d D %d scale 2^%d key weight %d kind %d case %d seed %llu", what, L, N, S, D, LD, h, kind, rep, (unsigned long long)st().seed);
      f();
      verify<L, N>(out->v, s, lin + LD * (D / g), want, tolg(g), what);
      if (hct(ct->v) != hc || hash() != hm || s != s0) viol("operand", "%s changed an input", what);
      if (!ct->ok() || !out->ok() || !Ar->ok() || !Ai->ok()) viol("overrun", "write outside an object");
      cover(hmix(hmix(hc, hm), hstr(what)), true);
      cat(std::string(what));
    };
    if (rep % 2 == 0) go(1, "serial transform", [&] { serial_linear_transform<L, LOGN, LD, S, D>(Ar->v, Ai->v, ct->v, s.data(), out->v); });
    else go(1, "transform grouped by 1", [&] { grouped_serial_linear_transform<L, LOGN, LD, S, D, 1>(Ar->v, Ai->v, ct->v, s.data(), out->v); });
    if constexpr (D % 2 == 0) {
      if (rep % 2) go(2, "transform grouped by 2", [&] { grouped2_serial_linear_transform<L, LOGN, LD, S, D>(Ar->v, Ai->v, ct->v, s.data(), out->v); });
      else go(2, "grouped transform, G=2", [&] { grouped_serial_linear_transform<L, LOGN, LD, S, D, 2>(Ar->v, Ai->v, ct->v, s.data(), out->v); });
    }
    if constexpr (D % 3 == 0) {
      if (rep % 2) go(3, "transform grouped by 3", [&] { grouped3_serial_linear_transform<L, LOGN, LD, S, D>(Ar->v, Ai->v, ct->v, s.data(), out->v); });
      else go(3, "grouped transform, G=3", [&] { grouped_serial_linear_transform<L, LOGN, LD, S, D, 3>(Ar->v, Ai->v, ct->v, s.data(), out->v); });
    }
    if constexpr (D % 4 == 0) {
      if (rep % 2) go(4, "transform grouped by 4", [&] { grouped4_serial_linear_transform<L, LOGN, LD, S, D>(Ar->v, Ai->v, ct->v, s.data(), out->v); });
      else go(4, "grouped transform, G=4", [&] { grouped_serial_linear_transform<L, LOGN, LD, S, D, 4>(Ar->v, Ai->v, ct->v, s.data(), out->v); });
    }
  }
}
static void body() {
  int k = (int)scale(6, 120);
#if CHUNK == 0
  dense<150, 2, 50>(8 * k); dense<128, 3, 45>(8 * k); dense<160, 4, 50>(6 * k); dense<100, 5, 30>(3 * k); dense<60, 3, 20>(6 * k); dense<140, 6, 40>(1 * k);
#elif CHUNK == 1
  sparse<128, 2, 50, 1>(10 * k); sparse<130, 2, 50, 2>(10 * k); sparse<128, 3, 50, 3>(10 * k); sparse<150, 4, 50, 3>(10 * k); sparse<150, 4, 50, 8>(6 * k); sparse<90, 5, 30, 5>(6 * k);
  sparse<200, 6, 59, 3>(6 * k); sparse<150, 7, 50, 3>(3 * k); sparse<64, 4, 20, 4>(8 * k); sparse<150, 9, 50, 3>(1 * k);
#elif CHUNK == 2
  serial<320, 3, 50, 3, 2>(4 * k); serial<320, 4, 50, 3, 3>(4 * k); serial<330, 4, 50, 2, 4>(4 * k); serial<450, 5, 50, 2, 6>(2 * k); serial<200, 5, 50, 3, 1>(4 * k);
#elif CHUNK == 3
  serial<330, 5, 50, 3, 4>(2 * k); serial<400, 4, 40, 2, 8>(2 * k); serial<600, 4, 40, 1, 12>(2 * k); serial<300, 5, 40, 3, 3>(2 * k); serial<256, 6, 40, 3, 2>(2 * k);
#elif CHUNK == 4
  serial<400, 7, 50, 3, 6>(1 * k); serial<256, 2, 40, 2, 4>(6 * k); serial<300, 6, 50, 3, 4>(1 * k);
#else
  sparse<128, 10, 50, 3>(1); sparse<130, 11, 50, 2>(1); sparse<100, 12, 40, 1>(1); serial<200, 10, 40, 2, 2>(2); dense<100, 7, 40>(1);
#endif
  sample("%s", casebuf());
}
VH_MAIN(body)
