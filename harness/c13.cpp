// C13: encryption and decryption: noise bound, fresh uniform masks, fresh noise distribution.
#include "HEAAN/core.h"
#define VH_HEAAN
#include "he.h"
using namespace vh;
static const double SIG = 9.0;

template <int L, int N> void bound() {
  Rng r = rng_for("bound", L * 65536 + N);
  auto P = mk<R_Q<L, N>>(), O = mk<R_Q<L, N>>();
  auto C = mk<R_Q_square<L, N>>(), C2 = mk<R_Q_square<L, N>>();
  long per = (N > 8192 ? 1 : N > 256 ? 4 : N > 32 ? 14 : 40) * scale(1, N > 8192 ? 2 : 12);
  for (long t = 0; t < per; t++) {
    std::vector<int> s;
    if (r.below(3) == 0) { s.assign(N, 7); HEAAN<L, N>::keygen((int)r.below(std::min(N, 8192 * 4096 / N) + 1), s.data()); }
    else s = genkey(r, N, (int)r.below(7));
    auto s0 = s;
    int st_ = (int)r.below(9);
    genring(r, P->v, st_);
    Poly p = top(P->v);
    poison(C->v, r.next());
    srand((unsigned)r.next());
    setcase("enc<%d,%d> key weight %d plaintext style %d p[0]=%s", L, N, weightof(s), st_, sz(p[0]).c_str());
    HEAAN<L, N>::enc(P->v, s.data(), C->v);
    if (!canonical(C->v)) viol("canonical", "ciphertext coefficient not canonical");
    if (top(P->v) != p || s != s0) viol("operand", "enc changed its input");
    Poly ph = phase(C->v, s);
    Z m = maxdiff(ph, p, L);
    if (L >= 6 && m > 8) viol("enc-noise", "noise %s exceeds 8", sz(m).c_str());
    C2->v = C->v;
    poison(O->v, r.next());
    setcase("dec<%d,%d> key weight %d plaintext style %d p[0]=%s", L, N, weightof(s), st_, sz(p[0]).c_str());
    HEAAN<L, N>::dec(C->v, s.data(), O->v);
    if (top(O->v) != ph) viol("dec", "decryption differs from c0 + c1 s");
    if (!same(C->v, C2->v) || s != s0) viol("operand", "dec changed its input");
    // decryption of arbitrary ciphertexts
    genct(r, C->v);
    ph = phase(C->v, s);
    poison(O->v, r.next());
    setcase("dec<%d,%d> of an arbitrary ciphertext, key weight %d", L, N, weightof(s));
    HEAAN<L, N>::dec(C->v, s.data(), O->v);
    if (top(O->v) != ph) viol("dec", "decryption differs from c0 + c1 s");
    // the same plaintext twice: fresh masks and noise
    HEAAN<L, N>::enc(P->v, s.data(), C->v);
    if (L * N >= 64 && same(C->v[1], C2->v[1])) viol("mask-reuse", "two encryptions have the same mask");
    if (!C->ok() || !P->ok() || !O->ok()) viol("overrun", "write outside an object");
    cover(hmix(hmix(hct(C2->v), hct(C->v)), L), true);
    cat("encryptions", 2);
    cat("decryptions", 2);
  }
  cat("(width, N) pairs");
}
static void binom(const char *key, const char *what, double n, double p, double got) {
  double sd = std::sqrt(n * p * (1 - p)) + 1e-9, z = (got - n * p) / sd;
  catmax(std::string("max |z|*100 ") + what, std::fabs(z) * 100);
  if (std::fabs(z) > SIG && std::fabs(got - n * p) > 12) viol(key, "%s: observed %.0f, expected %.1f +- %.1f (%.1f standard deviations)", what, got, n * p, sd, z);
  cat("statistics tested");
}
// SW: the ciphertexts are switching keys of width L, generated at width L/2
template <int L, int N, bool SW = false> void stats(int M) {
  Rng r = rng_for(SW ? "swkstats" : "stats", L * 65536 + N);
  const int nl = (L + 63) / 64;
  auto P = mk<R_Q<L, N>>();
  auto C = mk<R_Q_square<L, N>>();
  std::vector<long> ones(L), pair(L), bycoef(N);
  std::vector<long> noise(40), npos(N), nneg(N), nzero(N);
  std::unordered_set<u64> words;
  long repeats = 0, total = 0, prodpos = 0, prodneg = 0, lag2 = 0, prevsame = 0, prevn = 0;
  std::vector<int> prev(N, 0);
  srand((unsigned)r.next());
  std::vector<int> s = genkey(r, N, 0);
  std::vector<std::vector<long>> limbs(nl, std::vector<long>(nl)); // agreeing bits of two limbs of one mask coefficient
  std::vector<long> lags(20), olds(nl);                            // ... of two coefficients, of successive encryptions
  std::vector<u64> old((size_t)N * nl);
  for (int m = 0; m < M; m++) {
    if (m % 7 == 3) s = genkey(r, N, (int)r.below(7));
    Poly p;
    if constexpr (SW) {
      std::vector<int> fr(N);
      int k = (int)r.below(4);
      fr = k == 0 ? s : k == 1 ? galint(s, p5((int)r.below(N), N)) : k == 2 ? galint(s, 2 * N - 1) : genkey(r, N, (int)r.below(7));
      p.resize(N);
      for (int i = 0; i < N; i++) p[i] = zs(fr[i]) << (L / 2);
      setcase("statistics of swkgen<%d,%d> key %d", L / 2, N, m);
      HEAAN<L / 2, N>::swkgen(fr.data(), s.data(), C->v);
      cat("switching keys in statistics");
    } else {
      genring(r, P->v, (int)r.below(9));
      setcase("statistics of enc<%d,%d> encryption %d", L, N, m);
      HEAAN<L, N>::enc(P->v, s.data(), C->v);
      p = top(P->v);
    }
    Poly ph = phase(C->v, s);
    int last = 0;
    for (int i = 0; i < N; i++) {
      bool prevbit = false;
      for (int b = 0; b < L; b++) {
        bool bit = C->v[1][i][b / 64] >> (b % 64) & 1;
        if (bit) ones[b]++;
        if (bit && prevbit) pair[b]++;
        prevbit = bit;
      }
      if (C->v[1][i][0] >> 3 & 1) bycoef[i]++;
      for (int j = 0; j < nl; j++) if (L - 64 * j >= 64) { total++; if (!words.insert(C->v[1][i][j]).second) repeats++; }
      if (words.size() > 2000000) words.clear();
      auto agree = [&](u64 a, u64 b, int w) { return (long)w - __builtin_popcountll((a ^ b) & (w == 64 ? ~0ull : (1ull << w) - 1)); };
      auto wid = [&](int j) { return std::min(64, L - 64 * j); };
      for (int j = 0; j < nl; j++) for (int k = 0; k < j; k++) limbs[j][k] += agree(C->v[1][i][j], C->v[1][i][k], wid(j));
      for (int g = 0; (1 << g) < N; g++) if (i >> g) for (int j = 0; j < nl; j++) lags[g] += agree(C->v[1][i][j], C->v[1][i - (1 << g)][j], wid(j));
      for (int j = 0; j < nl; j++) { if (m) olds[j] += agree(C->v[1][i][j], old[(size_t)i * nl + j], wid(j)); old[(size_t)i * nl + j] = C->v[1][i][j]; }
      long e = mpz_get_si(Z(smod2(ph[i] - p[i], L)).get_mpz_t());
      if (e >= -8 && e <= 8) noise[e + 8]++; else viol("enc-noise", "noise %ld exceeds 8", e);
      if (e > 0) npos[i]++; else if (e < 0) nneg[i]++; else nzero[i]++;
      if (i && e && last) { if ((e > 0) == (last > 0)) prodpos++; else prodneg++; }
      if (prev[i] && e) { prevn++; if ((prev[i] > 0) == (e > 0)) prevsame++; }
      prev[i] = (int)e;
      last = (int)e;
    }
    cover(hmix(hct(C->v), L), true);
    cat("encryptions in statistics");
  }
  (void)lag2;
  double T = (double)M * N;
  for (int b = 0; b < L; b++) {
    binom("mask-bias", "ones in one bit of the mask", T, 0.5, ones[b]);
    if (b) binom("mask-bias", "two neighbouring ones in the mask", T, 0.25, pair[b]);
  }
  for (int j = 0; j < nl; j++) {
    double w = std::min(64, L - 64 * j);
    for (int k = 0; k < j; k++) binom("mask-dependence", "equal bits of two words of one mask coefficient", T * w, 0.5, limbs[j][k]);
    binom("mask-dependence", "equal bits of the masks of successive encryptions", (double)(M - 1) * N * w, 0.5, olds[j]);
  }
  for (int g = 0; (1 << g) < N; g++) binom("mask-dependence", "equal bits of two mask coefficients", (double)M * (N - (1 << g)) * L, 0.5, lags[g]);
  for (int i = 0; i < N; i++) {
    binom("mask-bias", "ones in bit 3 at one coefficient", M, 0.5, bycoef[i]);
    binom("noise-bias", "zero noise at one coefficient", M, 1 / 9.0, nzero[i]);
    binom("noise-bias", "positive noise at one coefficient", npos[i] + nneg[i], 0.5, npos[i]);
  }
  if (repeats > 2) viol("mask-reuse", "%ld of %ld mask words repeat an earlier one", repeats, total);
  double all = 0;
  for (int v = 1; v <= 8; v++) binom("noise-bias", "noise +v against -v", noise[8 + v] + noise[8 - v], 0.5, noise[8 + v]);
  for (int v = -8; v <= 8; v++) { all += noise[8 + v]; if (noise[8 + v] == 0) viol("noise-missing", "noise value %d never occurs in %.0f coefficients", v, T); }
  binom("noise-dependence", "equal signs of neighbouring noise", prodpos + prodneg, 0.5, prodpos);
  binom("noise-dependence", "equal noise signs in successive encryptions", prevn, 0.5, prevsame);
}
static void body() {
#if CHUNK == 0
  bound<2, 4>(); bound<7, 8>(); bound<31, 4>(); bound<32, 16>(); bound<60, 4>(); bound<61, 8>(); bound<63, 32>(); bound<64, 4>(); bound<65, 8>(); bound<66, 64>(); bound<100, 2>(); bound<127, 16>(); bound<128, 8>(); bound<129, 8>(); bound<192, 32>(); bound<320, 16>();
#elif CHUNK == 1
  bound<60, 128>(); bound<120, 128>(); bound<640, 64>(); bound<850, 32>(); bound<1000, 16>(); bound<1450, 64>(); bound<2300, 16>(); bound<2900, 32>(); bound<3000, 8>();
#elif CHUNK == 2
  bound<60, 512>(); bound<62, 1024>(); bound<64, 256>(); bound<850, 256>(); bound<1450, 512>(); bound<61, 4096>();
#elif CHUNK == 3
  stats<60, 64>((int)scale(6000, 60000)); stats<64, 16>((int)scale(20000, 200000));
#elif CHUNK == 4
  stats<130, 64>((int)scale(3000, 40000)); stats<300, 32>((int)scale(2500, 30000)); stats<33, 8>((int)scale(20000, 200000));
#elif CHUNK == 5
  stats<1450, 16>((int)scale(1500, 20000)); stats<2900, 8>((int)scale(1000, 15000)); stats<128, 256>((int)scale(500, 8000));
#elif CHUNK == 7
  stats<2600, 8, true>((int)scale(1000, 12000)); stats<120, 32, true>((int)scale(3000, 40000)); stats<1700, 16, true>((int)scale(800, 12000)); stats<192, 8, true>((int)scale(6000, 60000));
#else
  bound<60, 8192>(); bound<130, 16384>(); bound<850, 4096>(); bound<60, 32768>(); if (thorough()) bound<61, 65536>();
#endif
  sample("%s", casebuf());
}
VH_MAIN(body)
