// C07: products and sums in Z_{2^k}[X]/(X^N+1) against exact integer arithmetic.
#include "HEAAN/arith/R_Q_square.h"
#define VH_HEAAN
#include "big.h"
using namespace vh;

struct Ops { int w, n; void (*run)(); };
static std::vector<Ops> table;

// polynomial with canonical coefficients
static Poly genpoly(Rng &r, int w, int n, int style) {
  Poly p(n);
  switch (style) {
    case 0: for (auto &x : p) x = pow2(w - 1); break;                                  // all -Q/2
    case 1: for (auto &x : p) x = pow2(w - 1) - (w > 1 ? 1 : 0); break;                // all Q/2-1
    case 2: for (auto &x : p) x = r.coin() ? pow2(w - 1) : Z(pow2(w - 1) - (w > 1 ? 1 : 0)); break;
    case 3: p[r.below(n)] = gen(r, w); break;                                          // monomial
    case 4: for (int k = 0; k < 3; k++) p[r.below(n)] = gen(r, w); break;
    case 5: for (auto &x : p) x = umod2(zs(r.range(-9, 9)), w); break;
    case 6: for (auto &x : p) x = gen(r, w); break;
    case 7: for (auto &x : p) x = pow2(w) - 1; break;                                  // all -1
    case 8: for (int i = 0; i < n; i++) p[i] = i % 2 ? pow2(w - 1) : Z(0); break;
    case 9: for (auto &x : p) x = r.below(6) ? Z(0) : genu(r, w); break;
    default: for (auto &x : p) x = genu(r, w);
  }
  return p;
}
static u64 hp(const Poly &p) { u64 h = 7; for (auto &x : p) h = hmix(h, hz(x)); return h; }
static bool zerop(const Poly &p) { for (auto &x : p) if (x != 0) return false; return true; }
static Poly sgn(const Poly &p, int w) { Poly q(p.size()); for (size_t i = 0; i < p.size(); i++) q[i] = smod2(p[i], w); return q; }
static Poly red(const Poly &p, int w) { Poly q(p.size()); for (size_t i = 0; i < p.size(); i++) q[i] = umod2(p[i], w); return q; }

template <int L, int N> void expect(const R_Q<L, N> &got, const Poly &want, const char *what) {
  for (int i = 0; i < N; i++) {
    Z g = toz(got[i]);
    if (g != want[i]) { viol(what, "%s width %d N %d: coefficient %d is %s, expected %s", what, L, N, i, sz(g).c_str(), sz(want[i]).c_str()); return; }
  }
}
template <int L, int N> using G = std::unique_ptr<Guarded<R_Q<L, N>>>;

static long weight(int w, int n) {  // how many products to afford
  double c = (double)n * (w / 30 + 1) * (w / 64 + 4) * 8e-9 * 12;
  long k = (long)(0.5 / (c + 1e-9));
  return k < 6 ? (n > 40000 ? 5 : 6) : k > 400 ? 400 : k;
}

template <int L, int N> void run() {
  Rng r = rng_for("ring", L * 1000003ULL + N);
  long per = weight(L, N) * scale(1, 10);
  auto A = mk<R_Q<L, N>>(), B = mk<R_Q<L, N>>(), C = mk<R_Q<L, N>>();
  auto CT = mk<R_Q_square<L, N>>(), CT2 = mk<R_Q_square<L, N>>();
  auto ok = [&]() { if (!A->ok() || !B->ok() || !C->ok() || !CT->ok() || !CT2->ok()) viol("overrun", "write outside an object (width %d N %d)", L, N); };
  for (long i = 0; i < per; i++) {
    int sa = i < 3 ? 0 : (int)r.below(12), sb = i < 3 ? (int)(i == 0 ? 0 : i == 1 ? 2 : 7) : (int)r.below(12);
    Poly a = genpoly(r, L, N, sa), b = genpoly(r, L, N, sb);
    setcase("conv<%d,%d> operand shapes %d,%d a[0]=%s b[0]=%s round %ld", L, N, sa, sb, sz(a[0]).c_str(), sz(b[0]).c_str(), i);
    frp(A->v, a); frp(B->v, b); poison(C->v, r.next());
    conv<L, N>(A->v, B->v, C->v);
    Poly want = red(negacyclic(sgn(a, L), sgn(b, L)), L);
    expect(C->v, want, "product");
    expect(A->v, a, "operand");
    expect(B->v, b, "operand");
    cover(hmix(hmix(hp(a), hp(b)), L * 262144ULL + N), !zerop(a) && !zerop(b));
    cat("ring products");
    int mode = (int)(i % 6);
    if (mode == 0) { conv<L, N>(A->v, B->v, A->v); expect(A->v, want, "product in place (first operand)"); cat("aliased products"); }
    if (mode == 1) { conv<L, N>(A->v, B->v, B->v); expect(B->v, want, "product in place (second operand)"); cat("aliased products"); }
    if (mode == 2) {
      conv<L, N>(A->v, A->v, C->v);
      Poly sq = red(negacyclic(sgn(a, L), sgn(a, L)), L);
      expect(C->v, sq, "square");
      conv<L, N>(A->v, A->v, A->v);
      expect(A->v, sq, "square in place");
      cat("aliased products");
      cover(hmix(hp(a), L * 262144ULL + N + 1), !zerop(a));
    }
    if (mode == 3) {  // ciphertext times plaintext
      Poly c = genpoly(r, L, N, (int)r.below(12));
      frp(CT->v[0], b); frp(CT->v[1], c);
      CT->v *= A->v;
      expect(CT->v[0], want, "ct *= pt");
      expect(CT->v[1], red(negacyclic(sgn(c, L), sgn(a, L)), L), "ct *= pt");
      expect(A->v, a, "operand");
      cat("ciphertext times plaintext");
      cover(hmix(hmix(hp(c), hp(a)), L * 262144ULL + N + 2), !zerop(c) && !zerop(a));
    }
    if (mode == 4 && N <= 8192) {  // ternary and small integer products, in fresh and in reused arrays
      std::vector<int> s(N), t(N), u(N, 0x5a5a5a5a);
      int dens = (int)r.below(3);
      for (int k = 0; k < N; k++) s[k] = dens == 0 ? r.range(-1, 1) : dens == 1 ? (r.below(8) ? 0 : r.coin() ? 1 : -1) : (r.coin() ? 1 : -1);
      if (r.below(4) == 0) { std::fill(s.begin(), s.end(), 0); s[r.below(N)] = r.coin() ? 1 : -1; }
      if (N > 2048) {  // the library's ternary product is quadratic: few entries
        std::fill(s.begin(), s.end(), 0);
        for (int k = 0; k < 48; k++) s[r.below(N)] = r.coin() ? 1 : -1;
        s[N - 1] = 1;
      }
      Poly ps(N);
      for (int k = 0; k < N; k++) ps[k] = s[k];
      frp(B->v, b);
      poison(C->v, r.next());
      conv<L, N>(s.data(), B->v, C->v);
      expect(C->v, red(negacyclic(ps, sgn(b, L)), L), "ternary product");
      expect(B->v, b, "operand");
      if (N <= 1024) {  // all products and partial sums fit in an int
        std::vector<int> a1 = s;
        const long top = 2147483647L / N, root = (long)std::sqrt((double)top);
        int form = (int)r.below(6);
        long m1 = form == 2 ? root : form == 3 ? std::min(top, 1000L) : 1, m2 = form == 0 ? 3 : form == 2 ? root : top / m1;
        auto big = [&](long m) { return (int)(r.below(4) ? r.range(-m, m) : r.coin() ? m : -m); };
        if (form >= 2) for (int k = 0; k < N; k++) a1[k] = big(m1);
        for (int k = 0; k < N; k++) t[k] = r.below(8) ? big(m2) : 0;
        bool self = form == 5, swap = r.coin();
        if (self) t = a1;
        if (swap) std::swap(a1, t);
        Poly p1(N), p2(N);
        for (int k = 0; k < N; k++) { p1[k] = a1[k]; p2[k] = t[k]; }
        auto a0 = a1, t0 = t;
        conv<N>(a1.data(), self ? a1.data() : t.data(), u.data());
        if (a1 != a0 || t != t0) viol("operand", "conv<%d> on integers changed an operand", N);
        Poly w2 = negacyclic(p1, p2);
        for (int k = 0; k < N; k++) if (w2[k] != u[k]) { viol("integer product", "conv<%d> coefficient %d is %d, expected %s (operands up to %ld and %ld)", N, k, u[k], w2[k].get_str().c_str(), m1, m2); break; }
        cat("integer products");
      }
      cat("ternary products");
      cover(hmix(hmix(hp(ps), hp(b)), L * 262144ULL + N + 3), !zerop(b));
    }
    if (mode == 5) {  // sums, differences, words
      Poly c = genpoly(r, L, N, (int)r.below(12)), d = genpoly(r, L, N, (int)r.below(12));
      u64 w = genw(r);
      Poly z(N);
      frp(A->v, a); frp(B->v, b);
      A->v += B->v; for (int k = 0; k < N; k++) z[k] = umod2(a[k] + b[k], L); expect(A->v, z, "+=");
      frp(A->v, a); A->v -= B->v; for (int k = 0; k < N; k++) z[k] = umod2(a[k] - b[k], L); expect(A->v, z, "-=");
      frp(A->v, a); A->v *= w; for (int k = 0; k < N; k++) z[k] = umod2(a[k] * zu(w), L); expect(A->v, z, "*= word");
      frp(A->v, a); A->v += A->v; for (int k = 0; k < N; k++) z[k] = umod2(2 * a[k], L); expect(A->v, z, "+= self");
      frp(A->v, a); A->v -= A->v; for (int k = 0; k < N; k++) z[k] = 0; expect(A->v, z, "-= self");
      frp(CT->v[0], a); frp(CT->v[1], b); frp(CT2->v[0], c); frp(CT2->v[1], d);
      CT->v += CT2->v;
      for (int k = 0; k < N; k++) z[k] = umod2(a[k] + c[k], L); expect(CT->v[0], z, "ct +=");
      for (int k = 0; k < N; k++) z[k] = umod2(b[k] + d[k], L); expect(CT->v[1], z, "ct +=");
      CT->v -= CT2->v;
      expect(CT->v[0], a, "ct -="); expect(CT->v[1], b, "ct -=");
      CT->v *= w;
      for (int k = 0; k < N; k++) z[k] = umod2(a[k] * zu(w), L); expect(CT->v[0], z, "ct *= word");
      for (int k = 0; k < N; k++) z[k] = umod2(b[k] * zu(w), L); expect(CT->v[1], z, "ct *= word");
      expect(CT2->v[0], c, "operand"); expect(CT2->v[1], d, "operand");
      CT2->v += CT2->v;
      for (int k = 0; k < N; k++) z[k] = umod2(2 * c[k], L); expect(CT2->v[0], z, "ct += self");
      CT2->v -= CT2->v;
      expect(CT2->v[0], Poly(N), "ct -= self"); expect(CT2->v[1], Poly(N), "ct -= self");
      R_Q_square<L, N> *cp = new R_Q_square<L, N>(CT->v);
      CT->v.setzero();
      expect(CT->v[0], Poly(N), "setzero"); expect(CT->v[1], Poly(N), "setzero");
      CT->v = *cp;
      delete cp;
      for (int k = 0; k < N; k++) z[k] = umod2(b[k] * zu(w), L); expect(CT->v[1], z, "copy");
      cat("coefficient-wise operations", 10);
      cover(hmix(hmix(hp(a), hp(b)), hmix(hmix(hp(c), hp(d)), w)), true);
    }
    ok();
  }
  cat("(width, N) pairs");
  sample("%s", casebuf());
}
template <int N, int... L> void reg() { (table.push_back({L, N, &run<L, N>}), ...); }
template <int N, int FROM, int TO, int STEP> void regr() {
  table.push_back({FROM, N, &run<FROM, N>});
  if constexpr (FROM + STEP <= TO) regr<N, FROM + STEP, TO, STEP>();
}
static void body() {
#if CHUNK == 0
  regr<4, 1, 22, 1>();
#elif CHUNK == 1
  regr<4, 23, 45, 1>();
#elif CHUNK == 2
  regr<4, 46, 68, 1>();
#elif CHUNK == 3
  regr<2, 2, 130, 7>();
#elif CHUNK == 4
  regr<8, 69, 131, 3>();
#elif CHUNK == 5
  regr<16, 15, 300, 15>();
#elif CHUNK == 6
  regr<16, 330, 600, 30>(); reg<4, 1450, 2900>(); reg<8, 640, 1000, 2100, 2400>();
#elif CHUNK == 7
  reg<32, 1, 28, 29, 30, 60, 61, 64, 90, 120, 210, 450, 750, 900, 1200, 1450, 1500, 1800>();
#elif CHUNK == 8
  reg<8, 2700, 2990, 3000, 3051>(); reg<16, 2100, 2900, 3000>(); reg<64, 3000>();
#elif CHUNK == 9
  reg<64, 21, 30, 59, 60, 63, 64, 65, 100, 128, 300, 480, 600, 1390, 1450>();
#elif CHUNK == 10
  reg<128, 30, 60, 62, 64, 120, 150, 700, 1450>(); reg<256, 30, 60, 64, 100, 240, 1000>();
#elif CHUNK == 11
  reg<512, 28, 30, 60, 64, 127, 180, 1450>(); reg<1024, 26, 60, 61, 200>();
#elif CHUNK == 12
  reg<2048, 25, 60, 150>(); reg<4096, 30, 60, 89>(); reg<8192, 55>();
#elif CHUNK == 13
  reg<16384, 23, 60>(); reg<32768, 32>();
#elif CHUNK == 14
  reg<65536, 30>();
#else
  reg<131072, 21, 51>();
#endif
  for (auto &t : table) t.run();
}
VH_MAIN(body)
