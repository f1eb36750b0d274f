// C02: shift_right / shift_left / resize / RS / mod_raise between all pairs of widths, against exact arithmetic.
#include "HEAAN/bootstrap.h"
#define VH_HEAAN
#include "big.h"
using namespace vh;

enum { SHR, SHL, RESIZE, RINGRS, RINGRESIZE, CTRESIZE, RAISE };
static const char *NAMES[] = {"shift_right", "shift_left", "resize", "RS", "resize(poly)", "resize(ct)", "mod_raise"};

struct Ops { int f, t; int (*run)(int op, const u64 *a, u64 *b, u64 pz); };
static const int RN = 4;

template <int F, int T> int exec(int op, const u64 *a, u64 *b, u64 pz) {
  const int nf = (F + 63) / 64, nt = (T + 63) / 64;
  int fl = 0;
  if (op <= RESIZE) {
    Guarded<Z_Q<F>> A; Guarded<Z_Q<T>> B;
    poison(B.v, pz);
    for (int i = 0; i < nf; i++) A.v[i] = a[i];
    if (op == SHR) { if constexpr (F >= T) shift_right<F, T>(A.v, B.v); }
    else if (op == SHL) { if constexpr (F <= T) shift_left<F, T>(A.v, B.v); }
    else resize<F, T>(A.v, B.v);
    for (int i = 0; i < nt; i++) b[i] = B.v[i];
    for (int i = 0; i < nf; i++) if (A.v[i] != a[i]) fl |= 4;
    if (!A.ok() || !B.ok()) fl |= 2;
    return fl;
  }
  auto CA = mk<R_Q_square<F, RN>>(); auto CB = mk<R_Q_square<T, RN>>();
  poison(CB->v, pz);
  for (int c = 0; c < 2; c++) for (int k = 0; k < RN; k++) for (int i = 0; i < nf; i++) CA->v[c][k][i] = a[(c * RN + k) * nf + i];
  if (op == RINGRS) { if constexpr (F >= T) RS<F, T, RN>(CA->v, CB->v); }
  else if (op == RINGRESIZE) { resize<F, T, RN>(CA->v[0], CB->v[0]); resize<F, T, RN>(CA->v[1], CB->v[1]); }
  else if (op == CTRESIZE) resize<F, T, RN>(CA->v, CB->v);
  else mod_raise<F, T, RN>(CA->v, CB->v);
  for (int c = 0; c < 2; c++) for (int k = 0; k < RN; k++) {
    for (int i = 0; i < nt; i++) b[(c * RN + k) * nt + i] = CB->v[c][k][i];
    for (int i = 0; i < nf; i++) if (CA->v[c][k][i] != a[(c * RN + k) * nf + i]) fl |= 4;
  }
  if (!CA->ok() || !CB->ok()) fl |= 2;
  return fl;
}

#define WIDTHS 1, 2, 3, 31, 33, 59, 60, 63, 64, 65, 70, 100, 120, 127, 128, 129, 150, 180, 191, 192, 193, 250, 256, 257, 300, 320, 350, 383, 385, 510, 640, 650, 830, 960, 1150, 1390, 1450, 1600, 2300, 2900, 3051
template <int... L> struct List {};
static std::vector<Ops> table;
template <int F, int... T> void regrow(List<T...>) { (table.push_back({F, T, &exec<F, T>}), ...); }
static const int CH = CHUNK, NCH = 12;
template <int I, int F, int... R> void regall(List<F, R...>) {
  if constexpr (I % NCH == CH) regrow<F>(List<WIDTHS>());
  if constexpr (sizeof...(R) > 0) regall<I + 1>(List<R...>());
}

// numbers near the rounding tie of the shift, and with all-ones upper parts
static Z gens(Rng &r, int f, int t) {
  Z v = gen(r, f);
  int d = f - t;
  if (d <= 0) return v;
  switch (r.below(8)) {
    case 0: v = (v >> d << d) + pow2(d - 1); break;
    case 1: v = (v >> d << d) + pow2(d - 1) - 1; break;
    case 2: v = (v >> d << d) + pow2(d) - 1; break;
    case 3: v = ((pow2(t) - 1) << d) + pow2(d - 1); break;  // rounds up to 2^t = 0
    case 4: v = ((pow2(t) - 1) << d) + pow2(d - 1) - 1; break;
    case 5: v = ((pow2(t - 1) - 1) << d) + pow2(d - 1) + zu(r.below(2)); break;
    default: break;
  }
  return umod2(v, f);
}
static Z model(int op, const Z &a, int f, int t) {
  if (op == SHR || op == RINGRS) return f == t ? a : umod2((a + pow2(f - t - 1)) >> (f - t), t);
  if (op == SHL) return a << (t - f);
  return umod2(smod2(a, f), t);
}

template <int L, int STEP, int END> void modchain() {
  // the width changes of the bootstrapping chain
  table.push_back({2 * L, L, &exec<2 * L, L>});
  table.push_back({L, 2 * L, &exec<L, 2 * L>});
  table.push_back({L + 50, L, &exec<L + 50, L>});
  table.push_back({L + 60, L, &exec<L + 60, L>});
  table.push_back({60, L + 7, &exec<60, L + 7>});
  if constexpr (L + STEP <= END) modchain<L + STEP, STEP, END>();
}
template <int BASE, int D, int STEP, int END> void diffs() {
  table.push_back({BASE + D, BASE, &exec<BASE + D, BASE>});
  table.push_back({BASE, BASE + D, &exec<BASE, BASE + D>});
  if constexpr (D + STEP <= END) diffs<BASE, D + STEP, STEP, END>();
}
static void body() {
#if CHUNK < 12
  regall<0>(List<WIDTHS>());
#elif CHUNK == 12
  modchain<40, 47, 740>();
#elif CHUNK == 13
  modchain<750, 50, 1450>();
#elif CHUNK == 14
  diffs<200, 1, 2, 131>();
#else
  diffs<64, 2, 2, 132>();
#endif
  static u64 A[2 * RN * 64], B[2 * RN * 64];
  long per = scale(1500, 30000), ring = scale(60, 1500);
  for (auto &o : table) {
    int nf = (o.f + 63) / 64, nt = (o.t + 63) / 64;
    cat("width pairs");
    Rng r = rng_for("shift", o.f * 4096 + o.t);
    for (int op = SHR; op <= RESIZE; op++) {
      if (op == SHR && o.f < o.t) continue;
      if (op == SHL && o.f > o.t) continue;
      for (long i = 0; i < per; i++) {
        Z a = gens(r, o.f, o.t);
        if (o.f <= 6 && i < (1 << o.f)) a = i;
        expo(a, A, nf);
        setcase("%s %d->%d a=%s", NAMES[op], o.f, o.t, sz(a).c_str());
        int fl = o.run(op, A, B, r.next());
        Z got = imp(B, nt), want = model(op, a, o.f, o.t);
        if (got != want) viol(NAMES[op], "result %s, expected %s", sz(got).c_str(), sz(want).c_str());
        if (fl & 2) viol("overrun", "%s wrote outside the object", NAMES[op]);
        if (fl & 4) viol("operand", "%s changed its operand", NAMES[op]);
        cover(hmix(hz(a), op * 16777216ULL + o.f * 4096 + o.t), a != 0);
        cat(NAMES[op]);
      }
    }
    for (int op = RINGRS; op <= RAISE; op++) {
      if (op == RINGRS && o.f < o.t) continue;
      for (long i = 0; i < ring; i++) {
        Z a[2 * RN];
        u64 h = 0;
        for (int k = 0; k < 2 * RN; k++) { a[k] = gens(r, o.f, o.t); expo(a[k], A + k * nf, nf); h = hmix(h, hz(a[k])); }
        setcase("%s %d->%d first=%s", NAMES[op], o.f, o.t, sz(a[0]).c_str());
        int fl = o.run(op, A, B, r.next());
        for (int k = 0; k < 2 * RN; k++) {
          Z got = imp(B + k * nt, nt), want = model(op, a[k], o.f, o.t);
          if (got != want) viol(NAMES[op], "component %d coefficient %d from %s: result %s, expected %s", k / RN, k % RN, sz(a[k]).c_str(), sz(got).c_str(), sz(want).c_str());
        }
        if (fl & 2) viol("overrun", "%s wrote outside the object", NAMES[op]);
        if (fl & 4) viol("operand", "%s changed its operand", NAMES[op]);
        cover(hmix(h, op * 16777216ULL + o.f * 4096 + o.t), true);
        cat(NAMES[op]);
      }
    }
  }
  sample("%s", casebuf());
}
VH_MAIN(body)
