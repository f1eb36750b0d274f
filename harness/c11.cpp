// C11: rotation and conjugation as exact Galois automorphisms.
#include "HEAAN/linear_transform.h"
#define VH_HEAAN
#include "big.h"
#include "emb.h"
using namespace vh;

// X -> X^g applied to a signed coefficient vector
template <class T> std::vector<T> galois(const std::vector<T> &p, long long g) {
  int n = (int)p.size();
  std::vector<T> q(n);
  for (int i = 0; i < n; i++) {
    long long e = (long long)i * g % (2 * n);
    if (e < n) q[e] = p[i]; else q[e - n] = -p[i];
  }
  return q;
}
static long long pow5(long long r, int n) { long long p = 1; for (long long i = 0; i < r % (n / 2 > 0 ? n / 2 : 1); i++) p = p * 5 % (2 * n); return n >= 2 ? p : 1; }

static std::vector<int> amounts(Rng &r, int n, long budget) {
  std::vector<int> v;
  if (2 * n + 4 <= budget) for (int i = 0; i <= 2 * n + 3; i++) v.push_back(i);
  else {
    for (int i : {0, 1, 2, 3, n / 4 - 1, n / 4, n / 4 + 1, n / 2 - 2, n / 2 - 1, n / 2, n / 2 + 1, n - 1, n, n + 1, 2 * n, 2 * n + 1}) v.push_back(i);
    while ((long)v.size() < budget) v.push_back((int)r.below(n));
  }
  v.push_back(5 * n + 3);
  v.push_back(100003);
  return v;
}

template <int N> void ints() {
  Rng r = rng_for("int", N);
  struct G { int g0[8]; int v[N]; int g1[8]; };
  auto O = std::make_unique<G>();
  for (int rep = 0; rep < (int)scale(3, 30); rep++) {
    std::vector<int> s(N);
    int big = (int)r.below(3);
    for (auto &x : s) x = big == 0 ? r.range(-1, 1) : big == 1 ? r.range(-1000000, 1000000) : (r.below(4) ? 0 : r.coin() ? 1 : -1);
    if (rep == 0) for (int i = 0; i < N; i++) s[i] = i + 1;
    auto s0 = s;
    std::vector<int> out;
    auto run = [&](const char *what, std::function<void(int *)> f, long long g) {
      memset(O.get(), 0x3c, sizeof(G));
      setcase("%s on an integer polynomial, N=%d s[0]=%d s[1]=%d", what, N, s[0], s[1]);
      f(O->v);
      for (int k = 0; k < 8; k++) if (O->g0[k] != 0x3c3c3c3c || O->g1[k] != 0x3c3c3c3c) viol("overrun", "%s wrote outside the key", what);
      if (s != s0) viol("operand", "%s changed its input", what);
      out.assign(O->v, O->v + N);
      auto w = galois(s, g);
      if (out != w) viol(what[0] == 'c' ? "conj-int" : "rot-int", "%s: result differs from X -> X^%lld", what, g);
      cover(hmix(hbytes(s.data(), 4 * N), hmix(g, hstr(what))));
      cat("integer polynomials mapped");
    };
    run("rot by one", [&](int *o) { rot<N>(s.data(), o); }, 5 % (2 * N));
    run("conj", [&](int *o) { conj<N>(s.data(), o); }, 2 * N - 1);
    for (int a : amounts(r, N, scale(160, 600))) {
      char nm[64];
      snprintf(nm, sizeof nm, "rot by %d", a);
      run(nm, [&](int *o) { rot<N>(s.data(), o, a); }, pow5(a, N));
    }
  }
}
template <int L, int N> void ring() {
  Rng r = rng_for("ring", L * 65536 + N);
  auto A = mk<R_Q<L, N>>(), B = mk<R_Q<L, N>>(), C = mk<R_Q<L, N>>(), D = mk<R_Q<L, N>>(), S = mk<R_Q<L, N>>();
  for (int rep = 0; rep < (int)scale(N > 256 ? 1 : 3, N > 256 ? 6 : 30); rep++) {
    Poly a(N), b(N);
    for (int i = 0; i < N; i++) { a[i] = gen(r, L); b[i] = gen(r, L); }
    if (rep == 1) for (int i = 0; i < N; i++) a[i] = i % 3 ? Z(0) : pow2(L - 1);
    frp(A->v, a); frp(B->v, b);
    auto chk = [&](const R_Q<L, N> &got, const Poly &src, long long g, const char *what, int amt) {
      Poly w = galois(src, g);
      for (int i = 0; i < N; i++) if (toz(got[i]) != umod2(w[i], L)) { viol(what, "width %d N %d amount %d: coefficient %d is %s, expected %s", L, N, amt, i, sz(toz(got[i])).c_str(), sz(umod2(w[i], L)).c_str()); return; }
    };
    for (int amt : amounts(r, N, scale(N > 256 ? 24 : 70, 300))) {
      setcase("rot of a ring element width %d N %d amount %d a[1]=%s", L, N, amt, sz(a[1 % N]).c_str());
      poison(C->v, r.next());
      rot<L, N>(A->v, C->v, amt);
      chk(C->v, a, pow5(amt, N), "rot", amt);
      cover(hmix(hmix(hobj(A->v), amt), 17), true);
      cat("ring elements rotated");
      // composition
      int am2 = (int)r.below(N / 2 + 2);
      poison(D->v, r.next());
      rot<L, N>(C->v, D->v, am2);
      poison(C->v, r.next());
      rot<L, N>(A->v, C->v, am2 + amt);
      if (!same(C->v, D->v)) viol("compose", "rot by %d then %d differs from rot by %d (width %d N %d)", amt, am2, amt + am2, L, N);
      cat("compositions");
    }
    setcase("rot by default amount, conj, width %d N %d", L, N);
    rot<L, N>(A->v, C->v); chk(C->v, a, 5 % (2 * N), "rot", 1);
    poison(C->v, r.next());
    conj<L, N>(A->v, C->v); chk(C->v, a, 2 * N - 1, "conj", 0);
    cover(hmix(hobj(A->v), 31));
    cat("ring elements conjugated");
    // homomorphism for sum and product
    int amt = 1 + (int)r.below(N);
    setcase("homomorphism of rot by %d and conj, width %d N %d", amt, L, N);
    auto map = [&](bool cj, const R_Q<L, N> &x, R_Q<L, N> &y) { if (cj) conj<L, N>(x, y); else rot<L, N>(x, y, amt); };
    for (int cj = 0; cj < 2; cj++) {
      auto AB = mk<R_Q<L, N>>();
      conv<L, N>(A->v, B->v, AB->v);
      map(cj, AB->v, C->v);
      map(cj, A->v, D->v); map(cj, B->v, S->v);
      conv<L, N>(D->v, S->v, D->v);
      if (!same(C->v, D->v)) viol("product", "%s of a product differs from the product (width %d N %d amount %d)", cj ? "conj" : "rot", L, N, amt);
      AB->v = A->v; AB->v += B->v;
      map(cj, AB->v, C->v);
      map(cj, A->v, D->v); D->v += S->v;
      if (!same(C->v, D->v)) viol("sum", "%s of a sum differs from the sum", cj ? "conj" : "rot");
      cat("homomorphism checks", 2);
    }
    Poly a2 = top(A->v), b2 = top(B->v);
    if (a2 != a || b2 != b) viol("operand", "an input was changed");
    if (!A->ok() || !B->ok() || !C->ok() || !D->ok() || !S->ok()) viol("overrun", "write outside an object");
  }
  cat("(width, N) pairs");
}
// large degrees: polynomials against the exact map, without the group laws
template <int L, int N> void large() {
  Rng r = rng_for("large", L * 65536 + N);
  auto A = mk<R_Q<L, N>>(), C = mk<R_Q<L, N>>();
  for (int rep = 0; rep < (int)scale(2, 12); rep++) {
    for (int i = 0; i < N; i++) frz(A->v[i], gen(r, L));
    Poly a = top(A->v);
    u64 ha = hobj(A->v);
    for (int amt : amounts(r, N, 24)) for (int cj = 0; cj < 2; cj++) {
      if (cj && amt != 1) continue;
      poison(C->v, r.next());
      setcase("%s of a ring element width %d N %d amount %d", cj ? "conj" : "rot", L, N, amt);
      if (cj) conj<L, N>(A->v, C->v); else rot<L, N>(A->v, C->v, amt);
      Poly w = galois(a, cj ? 2 * N - 1 : pow5(amt, N));
      for (int i = 0; i < N; i++) if (toz(C->v[i]) != umod2(w[i], L)) { viol(cj ? "conj" : "rot", "width %d N %d amount %d: coefficient %d is %s, expected %s", L, N, amt, i, sz(toz(C->v[i])).c_str(), sz(umod2(w[i], L)).c_str()); break; }
      cover(hmix(hmix(ha, amt), 19 + cj), true);
      cat("ring elements of large degree mapped");
    }
    if (hobj(A->v) != ha) viol("operand", "an input was changed");
    if (!A->ok() || !C->ok()) viol("overrun", "write outside an object");
  }
}
template <int L, int LOGN> void slots() {
  const int N = 1 << LOGN;
  Rng r = rng_for("slots", L * 64 + LOGN);
  auto A = mk<R_Q<L, N>>(), C = mk<R_Q<L, N>>();
  std::vector<double> zr(N / 2), zi(N / 2), wr(N / 2), wi(N / 2);
  for (int rep = 0; rep < (int)scale(4, 40); rep++) {
    for (int i = 0; i < N / 2; i++) { zr[i] = r.sym(); zi[i] = r.sym(); }
    encode<L, LOGN>(zr.data(), zi.data(), 1ULL << 40, A->v);
    for (int amt : amounts(r, N, 12)) {
      setcase("slots after rot by %d, width %d LOGN %d", amt, L, LOGN);
      rot<L, N>(A->v, C->v, amt);
      decode<L, LOGN>(C->v, 1ULL << 40, wr.data(), wi.data());
      for (int i = 0; i < N / 2; i++) {
        int j = (int)(((long long)i + amt) % (N / 2));
        if (!(std::fabs(wr[i] - zr[j]) < 1e-6 && std::fabs(wi[i] - zi[j]) < 1e-6)) { viol("slots-rot", "slot %d holds %.9g%+.9gi, expected slot %d of the original, %.9g%+.9gi", i, wr[i], wi[i], j, zr[j], zi[j]); break; }
      }
      cover(hmix(hmix(hobj(A->v), amt), 47));
      cat("slot rotations decoded");
    }
    setcase("slots after conj, width %d LOGN %d", L, LOGN);
    conj<L, N>(A->v, C->v);
    decode<L, LOGN>(C->v, 1ULL << 40, wr.data(), wi.data());
    for (int i = 0; i < N / 2; i++) if (!(std::fabs(wr[i] - zr[i]) < 1e-6 && std::fabs(wi[i] + zi[i]) < 1e-6)) { viol("slots-conj", "slot %d not conjugated", i); break; }
    cat("slot conjugations decoded");
  }
}
static void body() {
#if CHUNK == 0
  ints<2>(); ints<4>(); ints<8>(); ints<16>(); ints<32>(); ints<64>(); ints<128>(); ints<256>(); ints<512>(); ints<1024>(); ints<4096>(); ints<65536>(); ints<131072>();
  slots<60, 2>(); slots<61, 3>(); slots<64, 4>(); slots<65, 5>(); slots<100, 6>(); slots<128, 7>(); slots<450, 8>(); slots<60, 9>(); slots<70, 10>(); slots<60, 12>();
#elif CHUNK == 1
  ring<1, 4>(); ring<5, 8>(); ring<63, 4>(); ring<64, 4>(); ring<65, 4>(); ring<60, 2>(); ring<128, 8>(); ring<100, 16>(); ring<127, 32>(); ring<1450, 8>();
#elif CHUNK == 2
  ring<60, 64>(); ring<129, 64>(); ring<64, 128>(); ring<192, 256>(); ring<850, 32>();
#elif CHUNK == 3
  ring<60, 512>(); ring<1450, 64>(); ring<61, 1024>(); ring<62, 2048>();
#else
  large<60, 4096>(); large<64, 8192>(); large<130, 16384>(); large<60, 32768>(); large<20, 65536>(); large<61, 131072>();
#endif
  sample("%s", casebuf());
}
VH_MAIN(body)
