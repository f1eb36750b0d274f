// A tour through every operation of the library: each operation is described by its inputs, outputs and a call,
// so that the monitors for purity (C24), memory errors (C25) and concurrency (C08) can run it in many settings.
#pragma once
#include <cmath>
#include <cassert>
#include <iostream>
#include "HEAAN/bootstrap.h"
#include "impl/message.h"
#include "impl/simple_plaintext.h"
#include "impl/plaintext.h"
#include "experiment/setup.h"
#include "vh.h"
#ifdef VH_MEMCHECK
#include <valgrind/memcheck.h>
#endif
namespace vh {
enum Role { IN, OUT, INOUT };
struct Span { void *p; size_t n; Role role; bool isbool; };
struct Block { unsigned char *base; size_t n, pad; u64 pat; };
struct Inst {
  std::string name;
  bool random = false, prints = false;
  int cost = 1;
  std::vector<Span> spans;
  std::vector<Block> blocks;
  std::vector<std::vector<unsigned char>> saved;  // initial content of IN and INOUT spans
  std::function<void()> call;
  std::vector<std::function<void(Rng &)>> mut;  // change one input in place, a little
  Inst() {}
  Inst(const Inst &) = delete;
  ~Inst() {
    for (auto &b : blocks) free(b.base);
  }
#ifdef VH_SANITIZER
  static const size_t PAD = 0;
#else
  static const size_t PAD = 64;
#endif
  template <class T> T *raw(size_t cnt) {
    size_t n = sizeof(T) * cnt;
    unsigned char *b = (unsigned char *)malloc(n + 2 * PAD);
    u64 pat = 0x5AC3A5963C0FF00DULL;
    for (size_t i = 0; i < PAD / 8; i++) { memcpy(b + 8 * i, &pat, 8); memcpy(b + PAD + n + 8 * i, &pat, 8); }
    blocks.push_back(Block{b, n, PAD, pat});
    return (T *)(b + PAD);
  }
  bool guards() const {
    for (auto &b : blocks)
      for (size_t i = 0; i < b.pad / 8; i++) {
        u64 x, y;
        memcpy(&x, b.base + 8 * i, 8);
        memcpy(&y, b.base + b.pad + b.n + 8 * i, 8);
        if (x != b.pat || y != b.pat) return false;
      }
    return true;
  }
  template <class T> void span(T *p, size_t cnt, Role role) { spans.push_back(Span{(void *)p, sizeof(T) * cnt, role, false}); }
  template <int N, int S> void span(SparseDiagonal<N, S> *p, size_t cnt, Role role) {
    for (size_t i = 0; i < cnt; i++) {
      spans.push_back(Span{p[i].vec, sizeof p[i].vec, role, false});
      spans.push_back(Span{p[i].off, sizeof p[i].off, role, false});
      spans.push_back(Span{p[i].zero, sizeof p[i].zero, role, true});
    }
  }
  template <class T> T *in(size_t cnt = 1) { T *p = raw<T>(cnt); span(p, cnt, IN); return p; }
  template <class T> T *out(size_t cnt = 1) { T *p = raw<T>(cnt); span(p, cnt, OUT); return p; }
  template <class T> T *inout(size_t cnt = 1) { T *p = raw<T>(cnt); span(p, cnt, INOUT); return p; }
  void mutate(u64 seed) {  // in place: same objects, slightly different content
    Rng r(seed);
    for (size_t k = 0; k < spans.size(); k++) if (spans[k].role == INOUT) memcpy(spans[k].p, saved[k].data(), spans[k].n);
    if (!mut.empty()) mut[r.below(mut.size())](r);
    saved.clear();
    seal();
  }
  void seal() {
    for (auto &s : spans) {
      std::vector<unsigned char> v;
      if (s.role != OUT) v.assign((unsigned char *)s.p, (unsigned char *)s.p + s.n);
      saved.push_back(v);
    }
  }
  void reset(u64 seed) {  // outputs get garbage, in-out objects their initial content
    Rng r(seed);
    for (size_t k = 0; k < spans.size(); k++) {
      Span &s = spans[k];
      unsigned char *c = (unsigned char *)s.p;
      if (s.role == INOUT) memcpy(c, saved[k].data(), s.n);
      if (s.role == OUT) {
        int how = (int)r.below(4);
        for (size_t i = 0; i < s.n; i++) {
          unsigned char x = how == 0 ? 0 : how == 1 ? 0xff : (unsigned char)r.next();
          c[i] = s.isbool ? (x & 1) : x;
        }
#ifdef VH_MEMCHECK
        VALGRIND_MAKE_MEM_UNDEFINED(c, s.n);
#endif
      }
    }
  }
  bool inputs_intact() const {
    for (size_t k = 0; k < spans.size(); k++)
      if (spans[k].role == IN && memcmp(spans[k].p, saved[k].data(), spans[k].n)) return false;
    return true;
  }
  u64 result() const {
    u64 h = hstr(name.c_str());
    for (auto &s : spans) if (s.role != IN) h = hbytes(s.p, s.n, h);
    return h;
  }
  u64 input() const {
    u64 h = hstr(name.c_str());
    for (size_t k = 0; k < spans.size(); k++) if (spans[k].role != OUT) h = hbytes(saved[k].data(), saved[k].size(), h);
    return h;
  }
};
struct OpDef {
  std::string name;
  std::function<void(Inst &, Rng &)> make;
  std::unique_ptr<Inst> inst(u64 seed) const {
    std::unique_ptr<Inst> i(new Inst);
    i->name = name;
    Rng r(seed);
    make(*i, r);
    i->seal();
    return i;
  }
};
inline std::vector<OpDef> &ops() { static std::vector<OpDef> v; return v; }
inline void op(const std::string &n, std::function<void(Inst &, Rng &)> f) { ops().push_back(OpDef{n, f}); }
inline std::string nm(const char *f, int a, int b = -1, int c = -1) {
  char t[200];
  if (c >= 0) snprintf(t, sizeof t, "%s<%d,%d,%d>", f, a, b, c);
  else if (b >= 0) snprintf(t, sizeof t, "%s<%d,%d>", f, a, b);
  else snprintf(t, sizeof t, "%s<%d>", f, a);
  return t;
}
// ---- generators -------------------------------------------------------------------------------
template <int L> void fill(Rng &r, Z_Q<L> &z) {
  int k = (int)r.below(8);
  for (int i = 0; i < z.get_length(); i++) z[i] = k == 0 ? 0 : k == 1 ? ~0ULL : k == 2 ? (i + 1 == z.get_length() ? 1ULL << ((L - 1) % 64) : 0) : r.next();
  z.remove_clutter();
}
template <int L, int N> void fill(Rng &r, R_Q<L, N> &a) { for (int i = 0; i < N; i++) fill(r, a[i]); }
template <int L, int N> void fill(Rng &r, R_Q_square<L, N> &a) { fill(r, a[0]); fill(r, a[1]); }
inline void filld(Rng &r, double *d, size_t n, double mag = 1) {
  int k = (int)r.below(4);
  for (size_t i = 0; i < n; i++) d[i] = k == 0 ? mag * (r.coin() ? 1 : -1) : k == 1 && i ? 0.0 : mag * r.sym();
}
inline void fillkey(Rng &r, int *s, int n) {
  int k = (int)r.below(3);
  for (int i = 0; i < n; i++) s[i] = k == 0 ? r.range(-1, 1) : k == 1 ? (r.coin() ? 1 : -1) : (r.below(4) ? 0 : (r.coin() ? 1 : -1));
}
template <int LOGN> void fill(Rng &r, Message<LOGN> &z) { filld(r, z.r, 1 << (LOGN - 1)); filld(r, z.i, 1 << (LOGN - 1)); }
template <int LOGN> void fill(Rng &r, SimplePlaintext<LOGN> &z) {
  int k = (int)r.below(3);
  for (auto &x : z.data) x = k == 0 ? r.range(-1000000, 1000000) : k == 1 ? r.sym() : std::ldexp(r.sym(), r.range(-40, 70));
}
template <int N, int S> void fill(Rng &r, SparseDiagonal<N, S> &a, SparseDiagonal<N, S> *b = nullptr, bool anyzero = true) {
  a.setzero();
  if (b) b->setzero();
  std::vector<int> o(N);
  for (int i = 0; i < N; i++) o[i] = i;
  for (int i = N - 1; i > 0; i--) std::swap(o[i], o[r.below(i + 1)]);
  for (int s = 0; s < S; s++) {
    a.off[s] = s < N ? o[s] : 0;
    bool z = s >= N || (anyzero && r.below(5) == 0);
    a.zero[s] = z;
    if (!z) filld(r, a.vec[s], N, 0.9);
    if (b) {
      b->off[s] = a.off[s];
      bool zb = s >= N || (z && r.coin()) || (anyzero && r.below(5) == 0);
      b->zero[s] = zb;
      if (!zb) filld(r, b->vec[s], N, 0.9);
    }
  }
}
template <int L> void tweak(Rng &r, Z_Q<L> &z) {
  int i = (int)r.below(z.get_length());
  z[i] ^= 1ULL << (i + 1 == z.get_length() ? r.below((L - 1) % 64 + 1) : r.below(64));
}
template <int L, int N> void tweak(Rng &r, R_Q<L, N> &a) { tweak(r, a[(int)r.below(N)]); }
template <int L, int N> void tweak(Rng &r, R_Q_square<L, N> &a) { tweak(r, a[(int)r.below(2)]); }
inline void tweakd(Rng &r, double *d, size_t n) { size_t i = r.below(n); d[i] = d[i] ? -d[i] : 0.375; }
template <int LOGN> void tweak(Rng &r, Message<LOGN> &z) { tweakd(r, r.coin() ? z.r : z.i, 1 << (LOGN - 1)); }
template <int LOGN> void tweak(Rng &r, SimplePlaintext<LOGN> &z) { tweakd(r, z.data, 1 << LOGN); }
template <int N, int S> void tweak(Rng &r, SparseDiagonal<N, S> &a) { int s = (int)r.below(S); if (!a.zero[s]) tweakd(r, a.vec[s], N); }
template <class T> void tweakable(Inst &I, T *p, size_t cnt) { I.mut.push_back([=](Rng &r) { tweak(r, p[r.below(cnt)]); }); }
template <class T> T *gin(Inst &I, Rng &r, size_t cnt = 1) { T *p = I.in<T>(cnt); for (size_t i = 0; i < cnt; i++) fill(r, p[i]); tweakable(I, p, cnt); return p; }
template <class T> T *ginout(Inst &I, Rng &r, size_t cnt = 1) { T *p = I.inout<T>(cnt); for (size_t i = 0; i < cnt; i++) fill(r, p[i]); tweakable(I, p, cnt); return p; }
inline double *dins(Inst &I, Rng &r, size_t n, double mag = 1) { double *p = I.in<double>(n); filld(r, p, n, mag); I.mut.push_back([=](Rng &r) { tweakd(r, p, n); }); return p; }
inline int *keyin(Inst &I, Rng &r, int n) { int *p = I.in<int>(n); fillkey(r, p, n); I.mut.push_back([=](Rng &r) { int i = (int)r.below(n); p[i] = p[i] ? (r.coin() ? 0 : -p[i]) : 1; }); return p; }

// ---- operations -------------------------------------------------------------------------------
#define OP(...) op(__VA_ARGS__)
#define BODY [](Inst & I, Rng & r)
template <int L> void reg_zq() {
  typedef Z_Q<L> T;
  OP(nm("Z_Q+=", L), BODY { T *a = ginout<T>(I, r), *b = gin<T>(I, r); I.call = [=] { *a += *b; }; });
  OP(nm("Z_Q-=", L), BODY { T *a = ginout<T>(I, r), *b = gin<T>(I, r); I.call = [=] { *a -= *b; }; });
  OP(nm("Z_Q*=", L), BODY { T *a = ginout<T>(I, r), *b = gin<T>(I, r); I.call = [=] { *a *= *b; }; });
  OP(nm("Z_Q*=word", L), BODY { T *a = ginout<T>(I, r); u64 w = r.next() >> r.below(64); I.call = [=] { *a *= w; }; });
  OP(nm("Z_Q self", L), BODY { T *a = ginout<T>(I, r); int k = (int)r.below(3); I.call = [=] { if (k == 0) *a += *a; else if (k == 1) *a -= *a; else *a *= *a; }; });
  OP(nm("Z_Q negate", L), BODY { T *a = ginout<T>(I, r); I.call = [=] { a->negate(); }; });
  OP(nm("Z_Q =", L), BODY { T *a = I.out<T>(), *b = gin<T>(I, r); I.call = [=] { *a = *b; T c(*a); *a = c; }; });
  OP(nm("Z_Q setzero", L), BODY { T *a = I.out<T>(); I.call = [=] { a->setzero(); }; });
  OP(nm("Z_Q double", L), BODY { T *a = gin<T>(I, r); double *d = I.out<double>(); I.call = [=] { *d = (double)*a; }; });
  OP(nm("Z_Q query", L), BODY { T *a = gin<T>(I, r); int *d = I.out<int>(2); I.call = [=] { d[0] = a->is_bigger_than_halfQ(); d[1] = a->max_valid_digit(); }; });
  if constexpr (L <= 1300) {
    OP(nm("Z_Q text", L), BODY {
      T *a = gin<T>(I, r), *b = I.out<T>();
      I.call = [=] { char t[520]; a->to_str(t); b->fr_str(t); };
    });
    OP(nm("Z_Q print", L), BODY { I.prints = true; T *a = gin<T>(I, r); I.call = [=] { a->print_unsigned(); }; });
  }
}
template <int F, int T> void reg_zz() {
  if constexpr (F >= T) OP(nm("shift_right", F, T), BODY { auto *a = gin<Z_Q<F>>(I, r); auto *b = I.out<Z_Q<T>>(); I.call = [=] { shift_right<F, T>(*a, *b); }; });
  if constexpr (F <= T) OP(nm("shift_left", F, T), BODY {
    auto *a = gin<Z_Q<F>>(I, r);
    auto *b = I.out<Z_Q<T>>();
    I.call = [=] { shift_left<F, T>(*a, *b); };
  });
  OP(nm("resize", F, T), BODY { auto *a = gin<Z_Q<F>>(I, r); auto *b = I.out<Z_Q<T>>(); I.call = [=] { resize<F, T>(*a, *b); }; });
  OP(nm("RS/raise", F, T), BODY {
    auto *a = gin<R_Q_square<F, 4>>(I, r);
    auto *b = I.out<R_Q_square<T, 4>>();
    I.call = [=] {
      if constexpr (F >= T) RS<F, T, 4>(*a, *b);
      else mod_raise<F, T, 4>(*a, *b);
    };
  });
}
template <int L, int LQ> void reg_crt() {
  static const u64 P[] = {0xffffffffffc0001ULL, 0xfffffffff840001ULL, 0x1000000000980001ULL, 97, 193, 65537, 0x7fffffff, 3, 0x1000000000f00001ULL};
  OP(nm("CRT()", L, LQ), BODY {
    u64 *q = I.in<u64>(L);
    for (int i = 0; i < L; i++) q[i] = P[i];
    auto *c = I.out<CRT<L, LQ>>();
    I.call = [=] { new (c) CRT<L, LQ>(q); };
  });
  OP(nm("crt", L, LQ), BODY {
    auto *c = I.in<CRT<L, LQ>>();
    new (c) CRT<L, LQ>(P);
    u64 *x = I.in<u64>(L);
    for (int i = 0; i < L; i++) x[i] = r.coin() ? r.below(P[i]) : P[i] - 1;
    auto *a = I.out<Z_Q<LQ>>();
    I.call = [=] { c->crt(x, *a); };
  });
  OP(nm("icrt", L, LQ), BODY {
    auto *c = I.in<CRT<L, LQ>>();
    new (c) CRT<L, LQ>(P);
    u64 *x = I.out<u64>(L);
    auto *a = gin<Z_Q<LQ>>(I, r);
    I.call = [=] { c->icrt(*a, x); };
  });
}
template <int LOGN> void reg_ntt() {
  const int N = 1 << LOGN;
  const int PI_ = 0;
  (void)PI_;
  OP(nm("NTT()", N), BODY { auto *t = I.out<NTT<N>>(); u64 q = LOGN <= 5 && r.coin() ? 193 : 0xffffffffffc0001ULL; I.call = [=] { new (t) NTT<N>(q); }; });
  for (int inv = 0; inv < 2; inv++)
    OP(nm(inv ? "intt" : "ntt", N), [inv](Inst &I, Rng &r) {
      static const NTT<N> *T = new NTT<N>(0x1000000000f00001ULL);
      u64 *x = I.inout<u64>(N);
      for (int i = 0; i < N; i++) x[i] = r.next() % T->q;
      const NTT<N> *t = T;
      I.call = [=] { if (inv) t->intt(x); else t->ntt(x); };
    });
}
inline void reg_mod() {
  OP("mod", BODY {
    u64 *x = I.out<u64>(10);
    u64 a = r.next(), b = r.next() >> r.below(64), q = (r.next() >> r.below(62)) | 2, n = r.next() >> r.below(64);
    I.call = [=] {
      x[0] = mod(a, b % q, q); x[1] = add_mod(a, b, q); x[2] = sub_mod(a, b, q); x[3] = mul_mod(a, b, q); x[4] = pow_mod(a, n, q);
      x[5] = inv_mod(a, 0xffffffffffc0001ULL); mul_(a, b, x[6], x[7]); mul(a, b, x[8], x[9]);
    };
  });
}
template <int L, int N> void reg_ring() {
  typedef R_Q<L, N> T;
  typedef R_Q_square<L, N> S;
  OP(nm("R_Q+=", L, N), BODY { T *a = ginout<T>(I, r), *b = gin<T>(I, r); I.call = [=] { *a += *b; }; });
  OP(nm("R_Q-=", L, N), BODY { T *a = ginout<T>(I, r), *b = gin<T>(I, r); I.call = [=] { *a -= *b; }; });
  OP(nm("R_Q*=word", L, N), BODY { T *a = ginout<T>(I, r); u64 w = r.next() >> r.below(64); I.call = [=] { *a *= w; }; });
  OP(nm("R_Q=", L, N), BODY { T *a = I.out<T>(), *b = gin<T>(I, r); I.call = [=] { *a = *b; T c(*a); a->setzero(); *a = c; }; });
  OP(nm("conv", L, N), BODY { I.cost = 8; T *a = gin<T>(I, r), *b = gin<T>(I, r), *c = I.out<T>(); I.call = [=] { conv<L, N>(*a, *b, *c); }; });
  OP(nm("conv alias", L, N), BODY { I.cost = 8; T *a = ginout<T>(I, r), *b = gin<T>(I, r); bool k = r.coin(); I.call = [=] { if (k) conv<L, N>(*a, *b, *a); else conv<L, N>(*b, *a, *a); }; });
  OP(nm("conv key", L, N), BODY { T *a = gin<T>(I, r), *c = I.out<T>(); int *s = keyin(I, r, N); I.call = [=] { conv<L, N>(s, *a, *c); }; });
  OP(nm("S+=", L, N), BODY { S *a = ginout<S>(I, r), *b = gin<S>(I, r); bool k = r.coin(); I.call = [=] { if (k) *a += *b; else *a -= *b; }; });
  OP(nm("S self", L, N), BODY { S *a = ginout<S>(I, r); bool k = r.coin(); I.call = [=] { if (k) *a += *a; else *a -= *a; }; });
  OP(nm("S*=pt", L, N), BODY { I.cost = 16; S *a = ginout<S>(I, r); T *b = gin<T>(I, r); I.call = [=] { *a *= *b; }; });
  OP(nm("S*=word", L, N), BODY { S *a = ginout<S>(I, r); u64 w = r.next(); I.call = [=] { *a *= w; }; });
  OP(nm("S=", L, N), BODY { S *a = I.out<S>(), *b = gin<S>(I, r); I.call = [=] { *a = *b; S c(*a); a->setzero(); *a = c; }; });
  OP(nm("rot", L, N), BODY { T *a = gin<T>(I, r), *c = I.out<T>(); int k = (int)r.below(N / 2 + 3); I.call = [=] { rot<L, N>(*a, *c, k); }; });
  OP(nm("conj", L, N), BODY { T *a = gin<T>(I, r), *c = I.out<T>(); I.call = [=] { conj<L, N>(*a, *c); }; });
  if constexpr (L <= 1300 && N <= 32)
    OP(nm("R_Q print", L, N), BODY { I.prints = true; S *a = gin<S>(I, r); I.call = [=] { a->print(); (*a)[0].print_signed(); (*a)[1].print_unsigned(); }; });
}
template <int N> void reg_int() {
  OP(nm("conv int", N), BODY {
    int *a = keyin(I, r, N), *b = keyin(I, r, N), *c = I.out<int>(N);
    I.call = [=] { conv<N>(a, b, c); };
  });
  OP(nm("rot1 int", N), BODY { int *a = keyin(I, r, N), *c = I.out<int>(N); I.call = [=] { rot<N>(a, c); }; });
  OP(nm("rot int", N), BODY { int *a = keyin(I, r, N), *c = I.out<int>(N); int k = (int)r.below(N + 1); I.call = [=] { rot<N>(a, c, k); }; });
  OP(nm("conj int", N), BODY { int *a = keyin(I, r, N), *c = I.out<int>(N); I.call = [=] { conj<N>(a, c); }; });
  OP(nm("keygen", N), BODY { I.random = true; int *c = I.out<int>(N); int h = (int)r.below(N + 1); I.call = [=] { HEAAN<64, N>::keygen(h, c); }; });
}
template <int L, int N> void reg_core() {
  typedef R_Q<L, N> T;
  typedef R_Q_square<L, N> S;
  typedef R_Q_square<2 * L, N> K;
  OP(nm("enc", L, N), BODY { I.random = true; T *a = gin<T>(I, r); S *c = I.out<S>(); int *s = keyin(I, r, N); I.call = [=] { HEAAN<L, N>::enc(*a, s, *c); }; });
  OP(nm("dec", L, N), BODY { S *a = gin<S>(I, r); T *c = I.out<T>(); int *s = keyin(I, r, N); I.call = [=] { HEAAN<L, N>::dec(*a, s, *c); }; });
  OP(nm("swkgen", L, N), BODY {
    I.random = true;
    int *f = keyin(I, r, N), *s = keyin(I, r, N);
    for (int i = 0; i < N; i++) f[i] *= r.range(0, 5);
    K *c = I.out<K>();
    I.call = [=] { HEAAN<L, N>::swkgen(f, s, *c); };
  });
  OP(nm("ks", L, N), BODY { I.cost = 20; K *k = gin<K>(I, r); S *a = ginout<S>(I, r); I.call = [=] { HEAAN<L, N>::ks(*k, *a); }; });
  OP(nm("Mul", L, N), BODY { I.cost = 50; K *k = gin<K>(I, r); S *a = gin<S>(I, r), *b = gin<S>(I, r), *c = I.out<S>(); bool sq = r.coin(); I.call = [=] { Mul<L, N>(*a, sq ? *a : *b, *k, *c); }; });
  OP(nm("rot_ct", L, N), BODY { I.cost = 20; K *k = gin<K>(I, r); S *a = gin<S>(I, r), *c = I.out<S>(); int o = (int)r.below(N / 2 + 1); I.call = [=] { rot_ct<L, N>(*a, o, *k, *c); }; });
  OP(nm("conj_ct", L, N), BODY { I.cost = 20; K *k = gin<K>(I, r); S *a = gin<S>(I, r), *c = I.out<S>(); I.call = [=] { conj<L, N>(*a, *k, *c); }; });
}
template <int L, int LOGN> void reg_code() {
  const int N = 1 << LOGN, H = N / 2;
  typedef R_Q<L, N> T;
  OP(nm("encode", L, LOGN), BODY {
    double *a = dins(I, r, H), *b = dins(I, r, H);
    T *c = I.out<T>();
    int top = min(L - 3, 60);
    u64 D = 1ULL << r.range(1, top);
    D -= r.coin() ? 0 : r.below(D / 2 + 1);
    I.call = [=] { encode<L, LOGN>(a, b, D, *c); };
  });
  OP(nm("decode", L, LOGN), BODY { T *a = gin<T>(I, r); double *b = I.out<double>(H), *c = I.out<double>(H); u64 D = 1 + (r.next() >> r.below(63)); I.call = [=] { decode<L, LOGN>(*a, D, b, c); }; });
  OP(nm("decode_log", L, LOGN), BODY { T *a = gin<T>(I, r); double *b = I.out<double>(H), *c = I.out<double>(H); int D = r.range(0, 200); I.call = [=] { decode_log<L, LOGN>(*a, D, b, c); }; });
}
template <int LOGN> void reg_dft() {
  const int N = 1 << LOGN, H = N / 2;
  static const char *F[] = {"fft", "fftNR", "dft"}, *G[] = {"ifft", "ifftNR", "idft"};
  for (int w = 0; w < 3; w++) {
    OP(nm(F[w], LOGN), [w](Inst &I, Rng &r) {
      double *m = dins(I, r, N), *a = I.out<double>(H), *b = I.out<double>(H);
      I.call = [=] { if (w == 0) fft<LOGN>(m, a, b); else if (w == 1) fftNR<LOGN>(m, a, b); else dft<N>(m, a, b); };
    });
    OP(nm(G[w], LOGN), [w](Inst &I, Rng &r) {
      double *m = I.out<double>(N), *a = dins(I, r, H), *b = dins(I, r, H);
      I.call = [=] { if (w == 0) ifft<LOGN>(a, b, m); else if (w == 1) ifftNR<LOGN>(a, b, m); else idft<N>(a, b, m); };
    });
  }
  OP(nm("splitU0NR", LOGN), BODY {
    typedef SparseDiagonal<H, 3> D;
    D *a = I.out<D>(LOGN - 1), *b = I.out<D>(LOGN - 1);
    I.call = [=] { splitU0NR<LOGN>(a, b); };
  });
}
template <int N, int S1, int S2> void reg_mat() {
  typedef SparseDiagonal<N, S1> A;
  typedef SparseDiagonal<N, S2> B;
  typedef SparseDiagonal<N, S1 * S2> C;
  for (int k = 0; k < 4; k++) OP(nm("Sparse op", N, S1, k), [k](Inst &I, Rng &r) {
    A *a = ginout<A>(I, r), *b = gin<A>(I, r);
    for (int s = 0; s < S1; s++) b->off[s] = a->off[s];
    double w = r.sym();
    I.call = [=] { if (k == 0) *a += *b; else if (k == 1) *a -= *b; else if (k == 2) { *a *= w; a->negate(); } else a->transpose(); };
  });
  OP(nm("Sparse =", N, S1), BODY { A *a = gin<A>(I, r), *b = I.out<A>(); I.call = [=] { b->setzero(); *b = *a; }; });
  OP(nm("Sparse set", N, S1), BODY {
    A *a = ginout<A>(I, r);
    double *d = I.out<double>(N);
    int i = (int)r.below(N), s = (int)r.below(min(N, S1)), j = (i + a->off[s]) % N;
    I.call = [=] { a->set_element(i, j, 2.5); for (int k = 0; k < N; k++) d[k] = a->get_element(i, k); };
  });
  OP(nm("MatMul", N, S1, S2), BODY { A *a = gin<A>(I, r); B *b = gin<B>(I, r); C *c = I.out<C>(); I.call = [=] { MatMul<N, S1, S2>(*a, *b, *c); }; });
  OP(nm("MatMul complex", N, S1, S2), BODY {
    A *a = I.in<A>(2); fill(r, a[0], &a[1]); tweakable(I, a, 2);
    B *b = I.in<B>(2); fill(r, b[0], &b[1]); tweakable(I, b, 2);
    C *c = I.out<C>(2);
    I.call = [=] { MatMul<N, S1, S2>(a[0], a[1], b[0], b[1], c[0], c[1]); };
  });
  OP(nm("Sparse print", N, S1), BODY { I.prints = true; A *a = gin<A>(I, r); I.call = [=] { a->print("A"); print_max(*a); }; });
  if constexpr (S2 < S1) OP(nm("RemoveClutter", N, S1, S2), BODY {
    A *a = gin<A>(I, r);
    for (int s = S2; s < S1; s++) { a->zero[s] = true; for (auto &x : a->vec[s]) x = 0; }
    B *b = I.out<B>();
    I.call = [=] { RemoveClutter<N, S1, S2>(*a, *b); };
  });
}
template <int N> void reg_dense() {
  typedef double M[N];
  OP(nm("matrix_product", N), BODY {
    double *a = dins(I, r, N * N), *b = dins(I, r, N * N), *c = dins(I, r, N * N), *d = dins(I, r, N * N), *e = I.out<double>(N * N), *f = I.out<double>(N * N);
    I.call = [=] { matrix_product<N>((const M *)a, (const M *)b, (const M *)c, (const M *)d, (M *)e, (M *)f); };
  });
  OP(nm("matrix print", N), BODY { I.prints = true; double *a = dins(I, r, N * N), *b = dins(I, r, N * N); I.call = [=] { print<N>((const M *)a, (const M *)b); }; });
  OP(nm("mat_to_vecs", N), BODY { double *a = dins(I, r, N * N), *e = I.out<double>(N * N); I.call = [=] { mat_to_vecs<N>((const M *)a, (M *)e); }; });
}
template <int L, int LOGN, int LD, int S> void reg_lt() {
  const int N = 1 << LOGN, H = N / 2;
  typedef SparseDiagonal<H, S> D;
  typedef R_Q_square<L, N> C;
  typedef R_Q_square<2 * L, N> K;
  OP(nm("linear_transform dense", L, LOGN), BODY {
    I.cost = 100;
    double *a = dins(I, r, H * H), *b = dins(I, r, H * H);
    typedef double M[H];
    C *c = gin<C>(I, r), *o = I.out<C>();
    K *k = gin<K>(I, r);
    I.call = [=] { linear_transform<L, LOGN, LD>((const M *)a, (const M *)b, *c, *k, *o); };
  });
  OP(nm("linear_transform keys", L, LOGN, S), BODY {
    I.cost = 60;
    D *a = I.in<D>(2); fill(r, a[0], &a[1]); tweakable(I, a, 2);
    C *c = gin<C>(I, r), *o = I.out<C>();
    K *k = gin<K>(I, r, S);
    const K **kp = I.in<const K *>(S);
    for (int s = 0; s < S; s++) kp[s] = a->off[s] == 0 || (a[0].zero[s] && a[1].zero[s]) ? nullptr : &k[s];
    I.call = [=] { linear_transform<L, LOGN, LD, S>(a[0], a[1], *c, kp, *o); };
  });
  OP(nm("linear_transform skey", L, LOGN, S), BODY {
    I.random = true; I.cost = 60;
    D *a = I.in<D>(2); fill(r, a[0], &a[1]); tweakable(I, a, 2);
    C *c = gin<C>(I, r), *o = I.out<C>();
    int *s = keyin(I, r, N);
    I.call = [=] { linear_transform<L, LOGN, LD, S>(a[0], a[1], *c, s, *o); };
  });
}
template <int L, int LOGN, int LD, int S, int DD, int G> void reg_serial() {
  const int N = 1 << LOGN, H = N / 2;
  typedef SparseDiagonal<H, S> D;
  typedef R_Q_square<L, N> C;
  OP(nm("grouped_serial", LOGN, DD, G), BODY {
    I.random = true; I.cost = 200;
    D *a = I.in<D>(DD), *b = I.in<D>(DD);
    for (int d = 0; d < DD; d++) fill(r, a[d], &b[d]); tweakable(I, a, DD); tweakable(I, b, DD);
    C *c = gin<C>(I, r), *o = I.out<C>();
    int *s = keyin(I, r, N);
    I.call = [=] { grouped_serial_linear_transform<L, LOGN, LD, S, DD, G>(a, b, *c, s, *o); };
  });
}
template <int L, int LOGN, int LD, int G> void reg_cts() {
  const int N = 1 << LOGN;
  typedef R_Q_square<L, N> C;
  OP(nm("CoeffToSlot", L, LOGN, G), BODY {
    I.random = true; I.cost = 300;
    C *c = gin<C>(I, r), *o = I.out<C>(2);
    int *s = keyin(I, r, N);
    I.call = [=] { CoeffToSlot<L, LOGN, LD, G>(*c, s, o); };
  });
  OP(nm("SlotToCoeff", L, LOGN, G), BODY {
    I.random = true; I.cost = 600;
    C *c = gin<C>(I, r, 2), *o = I.out<C>();
    int *s = keyin(I, r, N);
    I.call = [=] { SlotToCoeff<L, LOGN, LD, G>(c[0], c[1], s, *o); };
  });
}
template <int L, int N, int LD, int DEG> void reg_poly() {
#define KEY(i) R_Q_square<2 * (L - i * LD), N> *k##i = gin<R_Q_square<2 * (L - i * LD), N>>(I, r)
#define POLY(DEG_, LEV, COST, KEYS, ARGS)                                                                                        \
  OP(nm("eval_poly", L, N, DEG_), BODY {                                                                                           \
    I.cost = COST;                                                                                                                \
    double *u = dins(I, r, DEG_ + 1);                                                                                              \
    auto *c = gin<R_Q_square<L, N>>(I, r);                                                                                        \
    auto *o = I.out<R_Q_square<L - LEV * LD, N>>();                                                                               \
    KEYS;                                                                                                                         \
    I.call = [=] { eval_poly_deg##DEG_<L, N, LD> ARGS; };                                                                          \
  })
  if constexpr (DEG == 3) { POLY(3, 2, 100, KEY(0); KEY(1), (u, *c, *k0, *k1, *o)); }
  if constexpr (DEG == 7) { POLY(7, 3, 200, KEY(0); KEY(1); KEY(2), (u, *c, *k0, *k1, *k2, *o)); }
  if constexpr (DEG == 15) { POLY(15, 4, 400, KEY(0); KEY(1); KEY(2); KEY(3), (u, *c, *k0, *k1, *k2, *k3, *o)); }
  if constexpr (DEG == 31) { POLY(31, 5, 800, KEY(0); KEY(1); KEY(2); KEY(3); KEY(4), (u, *c, *k0, *k1, *k2, *k3, *k4, *o)); }
  if constexpr (DEG == 63) { POLY(63, 6, 1600, KEY(0); KEY(1); KEY(2); KEY(3); KEY(4); KEY(5), (u, *c, *k0, *k1, *k2, *k3, *k4, *k5, *o)); }
  if constexpr (DEG == 127) { POLY(127, 7, 3200, KEY(0); KEY(1); KEY(2); KEY(3); KEY(4); KEY(5); KEY(6), (u, *c, *k0, *k1, *k2, *k3, *k4, *k5, *k6, *o)); }
#undef POLY
}
template <int LOGN> void reg_msg() {
  typedef Message<LOGN> M;
  typedef SimplePlaintext<LOGN> P;
  const int H = 1 << (LOGN - 1);
  for (int k = 0; k < 3; k++) OP(nm("Message op", LOGN, k), [k](Inst &I, Rng &r) {
    M *a = gin<M>(I, r), *b = gin<M>(I, r), *c = I.out<M>();
    I.call = [=] { if (k == 0) add(*a, *b, *c); else if (k == 1) sub(*a, *b, *c); else mul(*a, *b, *c); };
  });
  OP(nm("Message norms", LOGN), BODY { M *a = gin<M>(I, r); double *d = I.out<double>(3); I.call = [=] { d[0] = square_sum(*a); d[1] = norm(*a); d[2] = sup_norm(*a); }; });
  OP(nm("Message()", LOGN), BODY { M *a = gin<M>(I, r), *b = I.out<M>(2); I.call = [=] { new (b) M(); new (b + 1) M(*a); }; });
  OP(nm("aggregate", LOGN), BODY { M *a = gin<M>(I, r, 1), *b = gin<M>(I, r, 1); auto *c = I.out<Message<LOGN + 1>>(); I.call = [=] { aggregate(*a, *b, *c); }; });
  OP(nm("Message print", LOGN), BODY { I.prints = true; M *a = gin<M>(I, r); I.call = [=] { print("m", *a); }; });
  OP(nm("Message mvp", LOGN), BODY { const int K = H < 3 ? H : 3; M *a = gin<M>(I, r, K), *z = gin<M>(I, r), *o = I.out<M>(); I.call = [=] { matrix_vector_product<LOGN, K>(*z, a, *o); }; });
  OP(nm("Message sparse mvp", LOGN), BODY {
    typedef SparseDiagonal<H, 4> D;
    D *a = I.in<D>(2); fill(r, a[0], &a[1]); tweakable(I, a, 2);
    M *z = gin<M>(I, r), *o = I.out<M>();
    I.call = [=] { matrix_vector_product<LOGN, 4>(*z, a[0], a[1], *o); };
  });
  for (int k = 0; k < 3; k++) OP(nm("SimplePlaintext op", LOGN, k), [k](Inst &I, Rng &r) {
    P *a = gin<P>(I, r), *b = gin<P>(I, r), *c = I.out<P>();
    I.call = [=] { if (k == 0) add(*a, *b, *c); else if (k == 1) sub(*a, *b, *c); else conv(*a, *b, *c); };
  });
  OP(nm("SimplePlaintext norms", LOGN), BODY { P *a = gin<P>(I, r); double *d = I.out<double>(2); I.call = [=] { d[0] = square_sum(*a); d[1] = norm(*a); }; });
  OP(nm("SimplePlaintext rotate", LOGN), BODY { P *a = gin<P>(I, r), *c = I.out<P>(2); int k = (int)r.below(H + 2); I.call = [=] { rotate_once(*a, c[0]); rotate(*a, c[1], k); }; });
  OP(nm("SimplePlaintext print", LOGN), BODY { I.prints = true; P *a = gin<P>(I, r); I.call = [=] { print("p", *a); }; });
  if constexpr (LOGN >= 2) {
    OP(nm("SimplePlaintext encode", LOGN), BODY { M *a = gin<M>(I, r); P *c = I.out<P>(2); u64 D = 1 + (r.next() >> r.range(4, 63)); I.call = [=] { encode<LOGN>(*a, D, c[0]); encode_raw<LOGN>(*a, D, c[1]); }; });
    OP(nm("SimplePlaintext decode", LOGN), BODY { P *a = gin<P>(I, r); M *c = I.out<M>(); u64 D = 1 + (r.next() >> r.range(4, 63)); I.call = [=] { decode<LOGN>(*a, D, *c); }; });
    OP(nm("mvp DFT", LOGN), BODY {
      typedef SparseDiagonal<H, 3> D;
      D *a = I.in<D>(2); fill(r, a[0], &a[1]); tweakable(I, a, 2);
      double *x = dins(I, r, H), *y = dins(I, r, H), *p = I.out<double>(H), *q = I.out<double>(H);
      I.call = [=] { matrix_vector_product<LOGN>(x, y, a[0], a[1], p, q); };
    });
    const int L = 130;
    typedef R_Q<L, 1 << LOGN> R;
    OP(nm("plaintext mvp", LOGN), BODY { I.cost = 30; const int K = H < 3 ? H : 3; M *a = gin<M>(I, r, K); R *p = gin<R>(I, r), *o = I.out<R>(); I.call = [=] { matrix_vector_product<L, LOGN, K>(*p, a, 1ULL << 40, *o); }; });
    OP(nm("plaintext sparse mvp", LOGN), BODY {
      I.cost = 30;
      typedef SparseDiagonal<H, 3> D;
      D *a = I.in<D>(2); fill(r, a[0], &a[1], false); tweakable(I, a, 2);
      R *p = gin<R>(I, r), *o = I.out<R>();
      I.call = [=] { matrix_vector_product<L, LOGN>(*p, a[0], a[1], 1ULL << 40, *o); };
    });
    OP(nm("plaintext encode", LOGN), BODY { M *a = gin<M>(I, r); R *o = I.out<R>(); M *b = I.out<M>(2); I.call = [=] { encode<L, LOGN>(*a, 1ULL << 45, *o); decode<L, LOGN>(*o, 1ULL << 44, b[0]); decode_log<L, LOGN>(*o, 45, b[1]); }; });
  }
}
template <int LOGN> void reg_setup() {
  typedef Message<LOGN> M;
  const int H = 1 << (LOGN - 1);
  OP(nm("test messages", LOGN), BODY {
    M *o = I.out<M>(3);
    u64 D = 1 + (r.next() >> r.range(4, 63));
    I.call = [=] { set_test_message(o[0]); set_test_rounded_message(o[1], D); set_evalmod_message(o[2]); };
  });
  OP(nm("test matrices", LOGN), BODY {
    typedef SparseDiagonal<H, 3> D;
    M *o = I.out<M>(4);
    D *a = I.out<D>(LOGN - 1), *b = I.out<D>(LOGN - 1);
    I.call = [=] { set_test_matrix<LOGN, 4>(o); set_test_U0_matrix<LOGN>(a, b); };
  });
  OP(nm("error report", LOGN), BODY { I.prints = true; M *a = gin<M>(I, r), *b = gin<M>(I, r); I.call = [=] { print_max_error(*a, *b); }; });
}
template <int L, int N, int LD> void reg_evalmod() {
  typedef R_Q_square<L, N> C;
  typedef R_Q_square<L - 12 * LD, N> O;
  OP(nm("EvalMod skey", L, N), BODY { I.random = true; I.cost = 4000; C *c = gin<C>(I, r); O *o = I.out<O>(); int *s = keyin(I, r, N); I.call = [=] { EvalMod<L, N, LD, 24>(*c, s, *o); }; });
  OP(nm("EvalMod keys", L, N), BODY {
    I.cost = 3500;
    C *c = gin<C>(I, r);
    O *o = I.out<O>();
    KEY(1); KEY(2); KEY(3); KEY(4); KEY(5); KEY(6); KEY(7); KEY(8); KEY(9); KEY(10); KEY(11);
    I.call = [=] { EvalMod<L, N, LD, 24>(*c, *k1, *k2, *k3, *k4, *k5, *k6, *k7, *k8, *k9, *k10, *k11, *o); };
  });
}
inline void reg_frc() {
  OP("convert_frc_tou", BODY {
    int n = 4 << r.below(6);
    double *c = dins(I, r, n), *u = I.out<double>(n);
    I.call = [=] { convert_frc_tou(c, u, n); };
  });
  OP("util", BODY {
    I.random = true;
    u64 *x = I.out<u64>(3);
    int k = r.range(1, 31);
    uint32_t b = (uint32_t)r.next() >> (32 - k);
    I.call = [=] { x[0] = rand_uint64(); x[1] = bitReverse(b, k); x[2] = log(k); };
  });
}

template <int F> void reg_zzs() {
  reg_zz<F, 1>(); reg_zz<F, 40>(); reg_zz<F, 63>(); reg_zz<F, 64>(); reg_zz<F, 65>(); reg_zz<F, 127>(); reg_zz<F, 128>(); reg_zz<F, 190>(); reg_zz<F, 192>(); reg_zz<F, 257>();
}
// the groups a monitor is compiled for
inline void reg_group(int g) {
#if GROUP == 0
  reg_mod(); reg_frc();
  reg_zq<1>(); reg_zq<7>(); reg_zq<63>(); reg_zq<64>(); reg_zq<65>(); reg_zq<128>(); reg_zq<130>(); reg_zq<192>(); reg_zq<320>(); reg_zq<1300>(); reg_zq<3000>();
  reg_zzs<1>(); reg_zzs<63>(); reg_zzs<64>(); reg_zzs<65>(); reg_zzs<128>(); reg_zzs<192>(); reg_zzs<200>(); reg_zzs<1290>();
  reg_crt<1, 40>(); reg_crt<3, 64>(); reg_crt<3, 130>(); reg_crt<5, 62>(); reg_crt<9, 400>();
  reg_ntt<1>(); reg_ntt<2>(); reg_ntt<3>(); reg_ntt<5>(); reg_ntt<8>();
#elif GROUP == 1
  reg_ring<1, 2>(); reg_ring<3, 4>(); reg_ring<60, 8>(); reg_ring<64, 16>(); reg_ring<65, 4>(); reg_ring<128, 2>(); reg_ring<130, 16>(); reg_ring<200, 32>(); reg_ring<1400, 8>(); reg_ring<60, 256>();
  reg_int<2>(); reg_int<4>(); reg_int<16>(); reg_int<128>();
#elif GROUP == 2
  reg_core<60, 4>(); reg_core<64, 8>(); reg_core<65, 16>(); reg_core<130, 4>(); reg_core<45, 2>(); reg_core<200, 32>(); reg_core<128, 16>();
  reg_code<64, 2>(); reg_code<65, 3>(); reg_code<130, 4>(); reg_code<200, 5>(); reg_code<40, 2>(); reg_code<1290, 3>(); reg_code<128, 7>();
  reg_dft<2>(); reg_dft<3>(); reg_dft<4>(); reg_dft<5>(); reg_dft<8>();
#elif GROUP == 3
  reg_mat<1, 1, 1>(); reg_mat<2, 2, 1>(); reg_mat<4, 3, 2>(); reg_mat<8, 3, 3>(); reg_mat<16, 5, 3>(); reg_mat<64, 3, 9>(); reg_mat<7, 4, 3>();
  reg_dense<2>(); reg_dense<4>(); reg_dense<9>();
  reg_msg<1>(); reg_msg<2>(); reg_msg<3>(); reg_msg<5>(); reg_msg<7>();
  reg_setup<2>(); reg_setup<3>(); reg_setup<6>();
#elif GROUP == 4
  reg_lt<120, 2, 30, 1>(); reg_lt<130, 3, 40, 3>(); reg_lt<64, 4, 20, 5>(); reg_lt<200, 5, 50, 3>();
  reg_serial<120, 3, 20, 3, 4, 1>(); reg_serial<128, 4, 20, 3, 4, 2>(); reg_serial<130, 3, 30, 3, 3, 3>(); reg_serial<120, 3, 20, 2, 4, 4>(); reg_serial<120, 4, 30, 3, 6, 3>();
  reg_cts<200, 3, 30, 1>(); reg_cts<200, 4, 40, 1>(); reg_cts<200, 4, 40, 3>(); reg_cts<190, 5, 30, 2>(); reg_cts<192, 5, 40, 4>(); reg_cts<200, 3, 30, 2>();
#elif GROUP == 5
  reg_poly<150, 4, 30, 3>(); reg_poly<200, 4, 40, 7>(); reg_poly<256, 8, 50, 15>(); reg_poly<320, 4, 50, 31>(); reg_poly<320, 4, 40, 63>(); reg_poly<330, 4, 40, 127>();
  reg_poly<200, 16, 60, 3>(); reg_poly<300, 16, 60, 7>();
  reg_evalmod<790, 4, 60>(); reg_evalmod<700, 8, 55>();
#elif GROUP == 6
  reg_ring<130, 2048>(); reg_core<120, 1024>(); reg_code<120, 11>(); reg_dft<12>(); reg_ntt<14>(); reg_int<2048>();
  reg_msg<11>(); reg_mat<2048, 3, 3>(); reg_cts<160, 7, 30, 2>(); reg_lt<120, 8, 30, 3>(); reg_setup<11>();
#elif GROUP == 7
  reg_ring<60, 1024>(); reg_code<120, 11>(); reg_dft<11>(); reg_ntt<11>(); reg_int<1024>(); reg_msg<10>(); reg_mat<1024, 3, 3>(); reg_core<40, 512>(); reg_setup<11>();
#endif
  (void)g;
}
}  // namespace vh
