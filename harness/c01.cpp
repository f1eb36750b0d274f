// C01: Z_Q arithmetic against GMP, every operation, many widths, aliasing, canonical form,
// operands unchanged, and long random register programs against a model.
#include "HEAAN/arith/Z_Q.h"
#define VH_HEAAN
template <int LOGQ, int N> struct R_Q;
#include "HEAAN/arith/R_Q.h"
#include "big.h"
using namespace vh;

enum { ADD, SUB, MUL, MULW, NEG, ADDSELF, SUBSELF, MULSELF, MULOWN, COPY, ASSIGN, SELFASSIGN, ZERO, CLUTTER, HALF, NOPS };
static const char *NAMES[] = {"+=", "-=", "*=", "*=word", "negate", "+=self", "-=self", "*=self", "*=own word", "copy", "=", "=self", "setzero", "remove_clutter", "is_bigger_than_halfQ"};

struct Ops {
  int w;
  // executes op on a (in/out limbs) with b, word x; returns flags: bit0 result of HALF, bit1 guard broken, bit2 operand b changed
  int (*run)(int op, u64 *a, const u64 *b, u64 x);
};

template <int L> int exec(int op, u64 *a, const u64 *b, u64 x) {
  const int n = (L + 63) / 64;
  Guarded<Z_Q<L>> A, B;
  for (int i = 0; i < n; i++) { A.v[i] = a[i]; B.v[i] = b[i]; }
  int fl = 0;
  switch (op) {
    case ADD: A.v += B.v; break;
    case SUB: A.v -= B.v; break;
    case MUL: A.v *= B.v; break;
    case MULW: A.v *= x; break;
    case NEG: A.v.negate(); break;
    case ADDSELF: A.v += A.v; break;
    case SUBSELF: A.v -= A.v; break;
    case MULSELF: A.v *= A.v; break;
    case MULOWN: A.v *= A.v[n - 1]; break;
    case COPY: { Z_Q<L> c(A.v); c += B.v; Z_Q<L> d(B.v); A.v = d; break; }
    case ASSIGN: A.v = B.v; B.v.setzero(); for (int i = 0; i < n; i++) B.v[i] = b[i]; break;
    case SELFASSIGN: A.v = *(&A.v); break;
    case ZERO: A.v.setzero(); break;
    case CLUTTER: A.v.remove_clutter(); break;
    case HALF: { const Z_Q<L> &c = A.v; if (c.is_bigger_than_halfQ()) fl |= 1; break; }
  }
  if (A.v.get_length() != n) fl |= 8;
  for (int i = 0; i < n; i++) { a[i] = A.v[i]; if (B.v[i] != b[i]) fl |= 4; }
  if (!A.ok() || !B.ok()) fl |= 2;
  return fl;
}

static std::vector<Ops> table;
template <int L> void reg() { table.push_back({L, &exec<L>}); }
template <int FROM, int TO, int STEP> void regr() {
  reg<FROM>();
  if constexpr (FROM + STEP <= TO) regr<FROM + STEP, TO, STEP>();
}
template <int... L> void regl() { (reg<L>(), ...); }

static void fill() {
#if CHUNK == 0
  regr<1, 33, 1>();
#elif CHUNK == 1
  regr<34, 70, 1>();
#elif CHUNK == 2
  regr<71, 110, 1>();
#elif CHUNK == 3
  regr<111, 140, 1>();
#elif CHUNK == 4
  regl<160, 176, 191, 192, 193, 200, 223, 224, 225, 255, 256, 257, 288, 300, 319, 320, 321, 350, 383, 384, 385, 400, 447, 448, 449, 450, 500, 511, 512, 513>();
#elif CHUNK == 5
  regl<550, 575, 576, 577, 600, 639, 640, 641, 650, 700, 703, 704, 705, 730, 768, 790, 800, 832, 850, 870, 895, 896, 897, 900, 940, 950>();
#elif CHUNK == 6
  regl<960, 1000, 1023, 1024, 1025, 1088, 1100, 1150, 1152, 1200, 1216, 1250, 1280, 1300, 1344, 1350, 1400, 1408, 1450>();
#else
  regl<1472, 1500, 1600, 1700, 1792, 1800, 1900, 1984, 2000, 2048, 2100, 2200, 2300, 2400, 2500, 2600, 2700, 2800, 2900, 3000, 3051, 6528>();
#endif
}

static Z model(int op, const Z &a, const Z &b, u64 x, int w, int nl) {
  switch (op) {
    case ADD: return umod2(a + b, w);
    case SUB: return umod2(a - b, w);
    case MUL: return umod2(a * b, w);
    case MULW: return umod2(a * zu(x), w);
    case NEG: return umod2(-a, w);
    case ADDSELF: return umod2(a + a, w);
    case SUBSELF: return 0;
    case MULSELF: return umod2(a * a, w);
    case MULOWN: return umod2(a * (a >> (64 * (nl - 1))), w);
    case COPY: case ASSIGN: return b;
    case ZERO: return 0;
    case CLUTTER: return umod2(a, w);
    default: return a;
  }
}

static void one(const Ops &o, int op, const Z &a, const Z &b, u64 x, u64 &hist, Z *out) {
  const int nl = (o.w + 63) / 64;
  u64 A[110], B[110];
  expo(a, A, nl);
  expo(b, B, nl);
  setcase("width %d op %s a=%s b=%s word=0x%llx", o.w, NAMES[op], sz(a).c_str(), sz(b).c_str(), (unsigned long long)x);
  int fl = o.run(op, A, B, x);
  Z got = imp(A, nl), want = model(op, a, b, x, o.w, nl);
  char key[80];
  snprintf(key, sizeof key, "zq%s", NAMES[op]);
  if (got != want) viol(key, "result %s, expected %s", sz(got).c_str(), sz(want).c_str());
  if (op == HALF && (fl & 1) != (int)(a >= pow2(o.w - 1))) viol(key, "is_bigger_than_halfQ says %d", fl & 1);
  if (fl & 2) viol("zq-overrun", "%s wrote outside the object", NAMES[op]);
  if (fl & 4) viol("zq-operand", "%s changed its operand", NAMES[op]);
  if (fl & 8) viol("zq-length", "wrong get_length");
  if (out) *out = want;
  hist = hmix(hmix(hz(a), hz(b)), hmix(x, op * 8192 + o.w));
  cover(hist, a != 0 || b != 0);
}

static void body() {
  fill();
  for (size_t k = 0; k < table.size(); k++) {
    const Ops &o = table[k];
    int nl = (o.w + 63) / 64;
    cat("widths");
    Rng r = rng_for("ops", o.w);
    u64 h;
    long per = scale(1500, 30000);
    for (int op = 0; op < NOPS; op++) {
      for (long i = 0; i < per; i++) {
        Z a = gen(r, o.w), b = gen(r, o.w);
        if (op == CLUTTER) a = umod2(gen(r, 64 * nl), 64 * nl);
        // related operands: equal, complementary, off by one
        int rel = (int)r.below(10);
        if (rel == 0) b = a;
        if (rel == 1) b = umod2(-a, o.w);
        if (rel == 2) b = umod2(pow2(o.w) - 1 - a, o.w);
        if (rel == 3) b = umod2(-a + 1, o.w);
        one(o, op, a, b, genw(r), h, nullptr);
        cat(NAMES[op]);
      }
    }
    // all pairs of small widths, exhaustively
    if (o.w <= 4) {
      for (int op = 0; op < NOPS; op++)
        for (int a = 0; a < (1 << o.w); a++)
          for (int b = 0; b < (1 << o.w); b++) one(o, op, Z(a), Z(b), a * 7 + b, h, nullptr);
      cat("widths done exhaustively");
    }
    // random register programs
    long progs = scale(60, 1500);
    for (long p = 0; p < progs; p++) {
      Z R[4];
      for (auto &z : R) z = gen(r, o.w);
      for (int step = 0; step < 60; step++) {
        int op = (int)r.below(NOPS);
        if (op == CLUTTER || op == ZERO) op = ADD;
        int d = (int)r.below(4), s = (int)r.below(4);
        Z out;
        int op2 = (d == s && op == ADD) ? ADDSELF : (d == s && op == MUL) ? MULSELF : op;
        one(o, op2, R[d], R[s], genw(r), h, &out);
        R[d] = out;
      }
      cat("register programs");
    }
    if (k == 0) sample("%s", casebuf());
  }
}
VH_MAIN(body)
