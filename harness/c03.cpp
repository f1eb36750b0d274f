// C03: decimal text and floating-point conversion.
#include "HEAAN/arith/R_Q_square.h"
#define VH_HEAAN
#include "big.h"
using namespace vh;

struct Ops { int w; void (*run)(int w); };
static std::vector<Ops> table;

// numbers in printed text, in order
static std::vector<Z> numbers(const std::string &s) {
  std::vector<Z> v;
  size_t i = 0;
  while (i < s.size()) {
    if (isdigit((unsigned char)s[i])) {
      size_t j = i;
      while (j < s.size() && isdigit((unsigned char)s[j])) j++;
      Z z(s.substr(i, j - i), 10);
      if (i > 0 && s[i - 1] == '-') z = -z;
      v.push_back(z);
      i = j;
    } else i++;
  }
  return v;
}

static bool dbl_ok(double d, const Z &s) {
  if (!std::isfinite(d)) return false;
  if (s == 0) return d == 0;
  Z t = 0;
  mpz_set_d(t.get_mpz_t(), d);  // exact for integral d
  if (std::fabs(d) < 9e15 && t == s) return true;
  Z e = abs(t - s);
  // relative error at most 2^-49
  return (e << 49) <= abs(s);
}

template <int L> void text(int w) {
  Rng r = rng_for("text", w);
  const int n = (L + 63) / 64;
  long per = scale(2500, 40000);
  for (long i = 0; i < per; i++) {
    Z a = gen(r, L);
    if (L <= 10 && i < (1L << L)) a = i;
    if (r.below(6) == 0) {  // powers of ten and neighbours
      int digits = (int)(L * 0.30103);
      mpz_ui_pow_ui(a.get_mpz_t(), 10, r.below(digits + 1));
      a = umod2(a + r.range(-1, 1), L);
    }
    Guarded<Z_Q<L>> A;
    frz(A.v, a);
    setcase("width %d value %s", L, sz(a).c_str());
    std::string dec = a.get_str(10);
    {
      struct { char g0[64]; char s[520]; char g1[64]; } buf;
      memset(&buf, 0x5A, sizeof buf);
      A.v.to_str(buf.s);
      bool ok = true;
      for (int k = 0; k < 64; k++) if (buf.g0[k] != 0x5A || buf.g1[k] != 0x5A) ok = false;
      if (!ok) viol("to_str-overrun", "to_str wrote outside 520 bytes");
      if (memchr(buf.s, 0, 520) == nullptr || dec != buf.s) viol("to_str", "got %.200s, expected %.200s", buf.s, dec.c_str());
    }
    {
      std::string in = dec;
      if (r.below(8) == 0) in = "000" + in;
      Guarded<Z_Q<L>> B;
      poison(B.v, r.next());
      B.v.fr_str(in.c_str());
      if (toz(B.v) != a) viol("fr_str", "read %.200s as %s", in.c_str(), sz(toz(B.v)).c_str());
      if (!B.ok()) viol("fr_str-overrun", "fr_str wrote outside the object");
    }
    Z s = tos(A.v);
    double d = (double)A.v;
    if (bitlen(s) <= 1000 && !dbl_ok(d, s)) viol("to-double", "converted to %.17g, value %s%s", d, s < 0 ? "-" : "", sz(abs(s)).c_str());
    if (toz(A.v) != a || !A.ok()) viol("operand", "conversion changed its operand");
    cover(hmix(hz(a), L), a != 0);
    cat("text round trips");
    cat("double conversions");
  }
  if (L % 7 == 0 || L > 600) {
    // whole polynomials
    for (int rep = 0; rep < (int)scale(4, 40); rep++) {
      auto P = mk<R_Q_square<L, 8>>();
      for (int c = 0; c < 2; c++) for (int k = 0; k < 8; k++) frz(P->v[c][k], gen(r, L));
      setcase("width %d printing polynomials, first coefficient %s", L, sz(toz(P->v[0][0])).c_str());
      const auto &CP = P->v;
      Capture c1; CP[0].print_unsigned(); auto u = numbers(c1.end());
      Capture c2; CP[1].print_signed(); auto sg = numbers(c2.end());
      Capture c3; CP.print(); auto q = numbers(c3.end());
      Capture c4; CP[0][3].print_unsigned(); auto o = numbers(c4.end());
      Poly p0 = top(CP[0]), p1 = top(CP[1]);
      if (u != p0) viol("print_unsigned", "%zu numbers printed, or they differ from the 8 coefficients", u.size());
      bool bad = sg.size() != 8;
      for (int k = 0; !bad && k < 8; k++) { Z w2 = tos(CP[1][k]); if (sg[k] != w2 && !(abs(sg[k]) == abs(w2) && w2 == -pow2(L - 1))) bad = true; }
      if (bad) viol("print_signed", "the printed numbers differ from the signed coefficients");
      Poly both = p0; both.insert(both.end(), p1.begin(), p1.end());
      if (q != both) viol("print", "the printed numbers differ from the coefficients");
      if (o.size() != 1 || o[0] != p0[3]) viol("print_unsigned", "single value printed wrongly");
      cat("polynomials printed");
      cover(hmix(hmix(hz(p0[0]), hz(p1[7])), 999 + L));
    }
  }
  (void)n;
}
template <int L> void dbl(int w) {
  Rng r = rng_for("dbl", w);
  long per = scale(3000, 60000);
  for (long i = 0; i < per; i++) {
    Z a = gen(r, L);
    if (r.coin()) {  // short values of either sign at any magnitude
      int m = 1 + (int)r.below(L < 990 ? L : 990);
      Z t = zu(r.next()) ;
      a = m > 64 ? Z(t << (m - 64)) : Z(t >> (64 - m));
      if (r.coin()) a = -a;
      a = umod2(a, L);
    }
    Z_Q<L> A;
    frz(A, a);
    Z s = tos(A);
    if (bitlen(s) > 1000) continue;
    setcase("width %d value %s", L, sz(a).c_str());
    double d = (double)A;
    if (!dbl_ok(d, s)) viol("to-double", "converted to %.17g, value %s%s", d, s < 0 ? "-" : "", sz(abs(s)).c_str());
    cover(hmix(hz(a), L + 70000), a != 0);
    cat("double conversions");
  }
}
template <int... L> void regt() { (table.push_back({L, &text<L>}), ...); }
template <int... L> void regd() { (table.push_back({L, &dbl<L>}), ...); }
static void body() {
#if CHUNK == 0
  regt<1, 2, 3, 4, 7, 10, 20, 28, 30, 31, 32, 33, 34, 35, 40, 50, 56, 60, 62, 63, 64, 65, 66, 70>();
#elif CHUNK == 1
  regt<77, 84, 90, 95, 96, 97, 98, 100, 112, 120, 126, 127, 128, 129, 140, 154, 160, 191, 192, 193, 224, 256>();
#elif CHUNK == 2
  regt<257, 300, 320, 350, 384, 399, 450, 500, 512, 550, 576, 600, 639, 640, 641, 700>();
#elif CHUNK == 3
  regt<750, 768, 833, 900, 950, 1000, 1023, 1024, 1025, 1100, 1200, 1250, 1279, 1280, 1281, 1299, 1300>();
#else
  regd<1, 2, 33, 63, 64, 65, 127, 128, 129, 192, 200, 256, 400, 512, 700, 900, 1000, 1001, 1450, 2048, 2900, 3051>();
#endif
  for (auto &t : table) { t.run(t.w); cat("widths"); }
  sample("%s", casebuf());
}
VH_MAIN(body)
