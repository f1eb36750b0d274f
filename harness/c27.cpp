// C27: distribution of encoding errors and the magnitude of rounding errors of products.
#include <cmath>
#include <cassert>
#include "impl/message.h"
#include "impl/simple_plaintext.h"
#include "impl/plaintext.h"
#include "HEAAN/bootstrap.h"
#define VH_HEAAN
#include "slot.h"
using namespace vh;
static const double F = 1.5;
template <int LOGN> u64 hm_(const Message<LOGN> &p) { return hmix(hbytes(p.r, sizeof p.r, LOGN), hbytes(p.i, sizeof p.i)); }

template <int LOGN> void rnd(Rng &r, Message<LOGN> &z) { for (int i = 0; i < (1 << (LOGN - 1)); i++) { z.r[i] = r.sym() * M_SQRT1_2; z.i[i] = r.sym() * M_SQRT1_2; } }
static void within(const char *key, double got, double want, double f) {
  cat(std::string("measured/predicted per cent, ") + key + " (latest)", -st().cats[std::string("measured/predicted per cent, ") + key + " (latest)"] + (long long)(100 * got / want));
  if (!(got <= want * f && got >= want / f)) viol(key, "measured %.6g, predicted %.6g (ratio %.4f, allowed %.3g)", got, want, got / want, f);
}
// shape of the encoding error: uniform on [-1/2, 1/2], no bias
template <int LOGN> void shape(int LD, int reps) {
  const int N = 1 << LOGN, L = 100;
  Rng r = rng_for("shape", LOGN * 64 + LD);
  auto z = mk<Message<LOGN>>();
  auto E = mk<R_Q<L, N>>();
  auto S = mk<SimplePlaintext<LOGN>>();
  double n = 0, s1 = 0, s2 = 0, ss = 0;
  double hist[20] = {0};
  double e2c[4] = {0}, nc[4] = {0};
  for (int rep = 0; rep < reps; rep++) {
    rnd<LOGN>(r, z->v);
    setcase("encoding errors N %d scale 2^%d vector %d seed %llu", N, LD, rep, (unsigned long long)st().seed);
    encode<L, LOGN>(z->v, 1ULL << LD, E->v);
    encode<LOGN>(z->v, 1ULL << LD, S->v);
    for (int k = 0; k < N; k++) {
      ld raw = std::ldexp(emb(N).coef(z->v.r, z->v.i, k), LD);
      Z v = tos(E->v[k]);
      ld e = (ld)v.get_d() - raw, f = (ld)S->v[k] - raw;
      if (std::fabs(e - f) > 1e-3L) { viol("models", "the two encoders differ at coefficient %d", k); return; }
      if (std::fabs(e) > 0.5L + std::ldexp(1e-14L, LD)) viol("range", "coefficient %d: encoding error %.6Lg", k, e);
      n++; s1 += (double)e; s2 += (double)(e * e); ss += raw < 0 ? -(double)e : (double)e;
      int b = (int)((e + 0.5L) * 20);
      hist[std::min(19, std::max(0, b))]++;
      e2c[k * 4 / N] += (double)(e * e); nc[k * 4 / N]++;
    }
    cover(hmix(hm_(z->v), LD), true);
    cat("vectors encoded");
  }
  double sd = std::sqrt(1.0 / 12 / n);
  setcase("encoding errors N %d scale 2^%d %d vectors seed %llu", N, LD, reps, (unsigned long long)st().seed);
  if (std::fabs(s1 / n) > 9 * sd) viol("bias", "mean encoding error %.6g over %.0f coefficients (standard deviation %.3g)", s1 / n, n, sd);
  if (std::fabs(ss / n) > 9 * sd) viol("bias", "mean encoding error in the direction of the coefficient %.6g over %.0f coefficients (standard deviation %.3g)", ss / n, n, sd);
  double sv = std::sqrt(1.0 / 180 / n);
  if (std::fabs(s2 / n - 1.0 / 12) > 9 * sv) viol("variance", "encoding error variance %.6g, expected %.6g", s2 / n, 1.0 / 12);
  for (int q = 0; q < 4; q++) if (std::fabs(e2c[q] / nc[q] - 1.0 / 12) > 9 * std::sqrt(1.0 / 180 / nc[q])) viol("variance", "encoding error variance in quarter %d is %.6g", q, e2c[q] / nc[q]);
  for (int b = 0; b < 20; b++) if (std::fabs(hist[b] - n / 20) > 9 * std::sqrt(n / 20)) viol("uniform", "%g of %g errors in bin %d of 20", hist[b], n, b);
  cat("error distributions tested");
}
// ||e * pt||^2 = N/12 ||pt||^2, and D times that for a sum over D diagonals
template <int LOGN, int LD> void conve(int reps, int Dg) {
  const int N = 1 << LOGN;
  Rng r = rng_for("conv", (LOGN * 64 + LD) * 64 + Dg);
  auto z = mk<Message<LOGN>>(), V = mk<Message<LOGN>>();
  auto pt = mk<SimplePlaintext<LOGN>>(), raw = mk<SimplePlaintext<LOGN>>(), q = mk<SimplePlaintext<LOGN>>(), e = mk<SimplePlaintext<LOGN>>(), rt = mk<SimplePlaintext<LOGN>>(), c = mk<SimplePlaintext<LOGN>>(), res = mk<SimplePlaintext<LOGN>>();
  for (int mk_ = 0; mk_ < 3; mk_++) {
    for (int i = 0; i < N / 2; i++) {
      double x = M_PI * i / (N / 2);
      if (mk_ == 0) { z->v.r[i] = std::cos(x) * M_SQRT1_2; z->v.i[i] = std::sin(x) * M_SQRT1_2; }
      else if (mk_ == 1) { z->v.r[i] = 1; z->v.i[i] = 0; }
      else { z->v.r[i] = r.sym(); z->v.i[i] = r.sym(); }
    }
    encode<LOGN>(z->v, 1ULL << LD, pt->v);
    double sum = 0;
    for (int rep = 0; rep < reps; rep++) {
      for (int i = 0; i < N; i++) res->v[i] = 0;
      for (int d = 0; d < Dg; d++) {
        rnd<LOGN>(r, V->v);
        setcase("convolution error N %d scale 2^%d diagonals %d plaintext %d vector %d seed %llu", N, LD, Dg, mk_, rep, (unsigned long long)st().seed);
        encode_raw<LOGN>(V->v, 1ULL << LD, raw->v);
        encode<LOGN>(V->v, 1ULL << LD, q->v);
        sub<LOGN>(raw->v, q->v, e->v);
        rotate<LOGN>(pt->v, rt->v, d);
        conv<LOGN>(e->v, rt->v, c->v);
        add<LOGN>(c->v, res->v, res->v);
        cover(hmix(hm_(V->v), hmix(mk_, d)), true);
      }
      sum += square_sum<LOGN>(res->v);
      cat("error products");
    }
    within(Dg == 1 ? "squared error of a product" : "squared error of a sum of products", sum / reps, Dg * (N / 12.0) * square_sum<LOGN>(pt->v), F);
  }
}
// ||Az - Az~|| = sqrt(D N / 12) ||z|| / scale: plaintext and homomorphic
template <int LOGN, int LD, int K> void matmul(int reps, bool hom) {
  const int N = 1 << LOGN, H = N / 2, L = 200, LZ = 50;
  Rng r = rng_for("matmul", (LOGN * 64 + LD) * 64 + K);
  struct MM { Message<LOGN> m[K]; };
  auto A = mk<MM>();
  auto z = mk<Message<LOGN>>(), w = mk<Message<LOGN>>(), g = mk<Message<LOGN>>(), e = mk<Message<LOGN>>();
  auto P = mk<R_Q<L, N>>(), O = mk<R_Q<L, N>>();
  auto ct = mk<R_Q_square<L, N>>(), out = mk<R_Q_square<L, N>>();
  auto SD = mk<SparseDiagonal<H, K>[2]>();
  std::vector<int> s = genkey(r, N, 0);
  double sp = 0, sh = 0, pred = 0;
  for (int rep = 0; rep < reps; rep++) {
    rnd<LOGN>(r, z->v);
    for (auto &m : A->v.m) rnd<LOGN>(r, m);
    setcase("matrix product error N %d scale 2^%d diagonals %d vector %d seed %llu", N, LD, K, rep, (unsigned long long)st().seed);
    matrix_vector_product<LOGN, K>(z->v, A->v.m, w->v);
    encode<L, LOGN>(z->v, 1ULL << LZ, P->v);
    // plaintext version wants one scale; the vector is encoded finely so that its own rounding does not matter
    matrix_vector_product<L, LOGN, K>(P->v, A->v.m, 1ULL << LD, O->v);
    decode_log<L, LOGN>(O->v, LD + LZ, g->v);
    sub<LOGN>(w->v, g->v, e->v);
    sp += square_sum<LOGN>(e->v);
    pred += K * N / 12.0 * square_sum<LOGN>(z->v) * std::ldexp(1.0, -2 * LD);
    cat("plaintext matrix products");
    if (hom) {
      for (int q = 0; q < 2; q++) { SD->v[q].setzero(); for (int k = 0; k < K; k++) { SD->v[q].off[k] = k; SD->v[q].zero[k] = false; for (int i = 0; i < H; i++) SD->v[q].vec[k][i] = q ? A->v.m[k].i[i] : A->v.m[k].r[i]; } }
      HEAAN<L, N>::enc(P->v, s.data(), ct->v);
      linear_transform<L, LOGN, LD, K>(SD->v[0], SD->v[1], ct->v, s.data(), out->v);
      HEAAN<L, N>::dec(out->v, s.data(), O->v);
      decode_log<L, LOGN>(O->v, LD + LZ, g->v);
      sub<LOGN>(w->v, g->v, e->v);
      sh += square_sum<LOGN>(e->v);
      cat("homomorphic matrix products");
    }
    cover(hmix(hm_(z->v), hm_(A->v.m[0])), true);
  }
  within("error norm of a plaintext matrix product", std::sqrt(sp / reps), std::sqrt(pred / reps), F);
  if (hom) within("error norm of a homomorphic matrix product", std::sqrt(sh / reps), std::sqrt(pred / reps), F);
}
static void below(const char *key, double got, double want) {
  cat(std::string("measured/predicted per cent, ") + key + " (latest)", -st().cats[std::string("measured/predicted per cent, ") + key + " (latest)"] + (long long)(100 * got / want));
  if (!(got <= want)) viol(key, "measured %.6g, predicted at most %.6g", got, want);
}
// product with all factors of the inverse transform, one after the other
template <int LOGN, int LD> void serial(int reps) {
  const int N = 1 << LOGN, D = LOGN - 1, L = 60 + LD * D + 30;
  Rng r = rng_for("serial", LOGN * 64 + LD);
  struct F { SparseDiagonal<N / 2, 3> a[D]; };
  auto A = mk<F>(), B = mk<F>();
  splitU0NR<LOGN>(A->v.a, B->v.a);
  for (int n = 0; n < D; n++) { A->v.a[n].transpose(); B->v.a[n].transpose(); B->v.a[n].negate(); }
  auto z = mk<Message<LOGN>>(), U = mk<Message<LOGN>>(), t = mk<Message<LOGN>>(), e = mk<Message<LOGN>>();
  auto p = mk<R_Q<L, N>>(), q = mk<R_Q<L, N>>();
  double s = 0, pr = 0;
  for (int rep = 0; rep < reps; rep++) {
    rnd<LOGN>(r, z->v);
    setcase("serial product error N %d scale 2^%d vector %d seed %llu", N, LD, rep, (unsigned long long)st().seed);
    U->v = z->v;
    encode<L, LOGN>(z->v, 1ULL << 50, p->v);
    for (int i = 0; i < D; i++) {
      t->v = U->v; matrix_vector_product<LOGN>(t->v, A->v.a[i], B->v.a[i], U->v);
      q->v = p->v; matrix_vector_product<L, LOGN>(q->v, A->v.a[i], B->v.a[i], 1ULL << LD, p->v);
    }
    decode_log<L, LOGN>(p->v, 50 + LD * D, t->v);
    sub<LOGN>(U->v, t->v, e->v);
    s += square_sum<LOGN>(e->v);
    pr += 3 * N / 12.0 * square_sum<LOGN>(z->v) * std::ldexp(1.0, -2 * LD) * D * std::ldexp(1.0, D - 1);
    cover(hmix(hm_(z->v), LD), true); cat("serial products");
  }
  below("error norm of a serial product", std::sqrt(s), std::sqrt(pr));
}
// raised message norm and coefficient-to-slot error for keys of weight h
template <int LOGN, int LD, int G> void cts(int h, int reps) {
  const int N = 1 << LOGN, D = (LOGN - 1) / G, Lq = 60, LZ = 50, L = Lq + 60 + LD * D;
  Rng r = rng_for("cts", (LOGN * 64 + LD) * 8 + G + h * 65536);
  auto ct = mk<R_Q_square<L, N>>(); auto o = mk<R_Q_square<L, N>[2]>();
  auto pt = mk<R_Q<L, N>>(), po = mk<R_Q<L, N>>();
  auto pq = mk<R_Q<Lq, N>>(); auto cq = mk<R_Q_square<Lq, N>>();
  auto z = mk<Message<LOGN>>(), w = mk<Message<LOGN>>();
  double e = 0, pe = 0, am = 0, pa = 0;
  for (int rep = 0; rep < reps; rep++) {
    std::vector<int> s(N, 0);
    for (int k = 0; k < h;) { int j = (int)r.below(N); if (!s[j]) { s[j] = r.coin() ? 1 : -1; k++; } }
    rnd<LOGN>(r, z->v);
    setcase("coefficient-to-slot error N %d scale 2^%d grouping %d key weight %d case %d seed %llu", N, LD, G, h, rep, (unsigned long long)st().seed);
    encode<Lq, LOGN>(z->v, 1ULL << LZ, pq->v);
    HEAAN<Lq, N>::enc(pq->v, s.data(), cq->v);
    resize(cq->v, ct->v);
    HEAAN<L, N>::dec(ct->v, s.data(), pt->v);
    decode_log<L, LOGN>(pt->v, LZ, w->v);
    am += square_sum<LOGN>(w->v);
    double qd = std::ldexp(1.0, Lq - LZ);
    pa += N / 2.0 * ((h + 1) / 12.0 * qd * qd * N);
    CoeffToSlot<L, LOGN, LD, G>(ct->v, s.data(), o->v);
    for (int k = 0; k < 2; k++) {
      HEAAN<L, N>::dec(o->v[k], s.data(), po->v);
      decode_log<L, LOGN>(po->v, LZ + D * LD, w->v);
      for (int i = 0; i < N / 2; i++) {
        double x = std::ldexp(tos(pt->v[brev(i, LOGN - 1) + k * N / 2]).get_d(), -LZ) - w->v.r[i];
        e += x * x + w->v.i[i] * w->v.i[i];
      }
    }
    double C1 = D * std::sqrt((h + 1) * std::pow(3.0, G)) / 12.0 * std::pow(2.0, 1.0 / (2 * D)), v = C1 * std::ldexp(1.0, -LD) * std::pow((double)N, 1 + 1.0 / (2 * D)) * qd;
    pe += v * v;
    cover(hmix(hobj(pt->v), G), true); cat("coefficient-to-slot errors");
  }
  below("error norm of coefficient-to-slot", std::sqrt(e), std::sqrt(pe));
  within("norm of the raised message", std::sqrt(am), std::sqrt(pa), F);
}
static void body() {
  int k = (int)scale(1, 8);
#if CHUNK == 0
  shape<4>(30, 1500 * k); shape<5>(20, 800 * k); shape<6>(35, 400 * k); shape<7>(30, 150 * k); shape<8>(25, 60 * k); shape<9>(30, 20 * k);
#elif CHUNK == 1
  conve<5, 40>(300 * k, 1); conve<6, 50>(200 * k, 1); conve<7, 30>(100 * k, 1); conve<9, 50>(25 * k, 1);
  conve<5, 40>(200 * k, 4); conve<6, 50>(60 * k, 16); conve<8, 45>(20 * k, 8);
#elif CHUNK == 3
  serial<5, 30>(20 * k); serial<6, 35>(10 * k); serial<7, 30>(4 * k); serial<8, 25>(2 * k);
  cts<5, 30, 1>(8, 10 * k); cts<5, 30, 2>(16, 10 * k); cts<5, 35, 4>(32, 10 * k); cts<7, 30, 2>(16, 2 * k); cts<7, 25, 3>(64, 3 * k); cts<9, 30, 4>(128, 1 * k);
#else
  matmul<4, 30, 4>(200 * k, true); matmul<5, 25, 8>(100 * k, true); matmul<6, 30, 16>(30 * k, true); matmul<7, 30, 3>(40 * k, true); matmul<8, 28, 16>(15 * k, false); matmul<9, 30, 8>(12 * k, true);
#endif
  sample("%s", casebuf());
}
VH_MAIN(body)
