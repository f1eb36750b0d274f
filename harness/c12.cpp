// C12: key generation: exact weight, ternary, no bias.
#include "HEAAN/core.h"
#define VH_HEAAN
#include "he.h"
using namespace vh;

static const double SIG = 9.0;  // acceptance width in standard deviations

template <int L, int N> void shape() {
  Rng r = rng_for("shape", N);
  struct G { int g0[8]; int v[N]; int g1[8]; };
  auto S = std::make_unique<G>();
  std::vector<int> hs;
  if (N <= 256) for (int h = 0; h <= N; h++) hs.push_back(h);
  else for (int h : {0, 1, 2, 16, 64, 128, 192, N / 2, N - 2, N - 1, N}) hs.push_back(h);
  for (int rep = 0; rep < (int)scale(N <= 64 ? 20 : 4, N <= 64 ? 400 : 40); rep++)
    for (int h : hs) {
      memset(S.get(), 0x3c, sizeof(G));
      int fill = (int)r.below(5);
      for (int i = 0; i < N; i++) S->v[i] = fill == 0 ? 0 : fill == 1 ? r.range(-1, 1) : fill == 2 ? 1 : fill == 3 ? (int)r.next() : -1;
      srand((unsigned)r.next());
      setcase("keygen N=%d h=%d array filled in style %d", N, h, fill);
      HEAAN<L, N>::keygen(h, S->v);
      int w = 0;
      bool tern = true;
      for (int i = 0; i < N; i++) { if (S->v[i]) w++; if (S->v[i] < -1 || S->v[i] > 1) tern = false; }
      if (w != h) viol("weight", "key has %d non-zero entries, requested %d", w, h);
      if (!tern) viol("ternary", "key has an entry other than -1, 0, 1");
      for (int k = 0; k < 8; k++) if (S->g0[k] != 0x3c3c3c3c || S->g1[k] != 0x3c3c3c3c) viol("overrun", "keygen wrote outside the key");
      cover(hmix(hbytes(S->v, 4 * N), h * 4096 + N), h > 0);
      cat("keys of every weight");
    }
}
// max standardised deviation of counts from an expected binomial
static void binom(const char *key, const char *what, double n, double p, double got) {
  double sd = std::sqrt(n * p * (1 - p)) + 1e-9, z = (got - n * p) / sd;
  catmax(std::string("max |z|*100 ") + what, std::fabs(z) * 100);
  if (std::fabs(z) > SIG && std::fabs(got - n * p) > 12) viol(key, "%s: observed %.0f, expected %.1f +- %.1f (%.1f standard deviations)", what, got, n * p, sd, z);
  cat("statistics tested");
}
template <int N> void stats(int h, int M) {
  Rng r = rng_for("stats", N * 1024 + h);
  std::vector<long> pos(N), plus(N), lag(N), first(N);
  std::vector<double> samesign(N), together(N);
  std::unordered_set<u64> keys;
  double sumw2 = 0;
  long repeats = 0;
  int s[N], prev[N];
  memset(prev, 0, sizeof prev);
  long overlap = 0, signagree = 0;
  srand((unsigned)r.next());
  for (int m = 0; m < M; m++) {
    setcase("statistics over successive keys N=%d h=%d key %d", N, h, m);
    for (int i = 0; i < N; i++) s[i] = (int)m;
    HEAAN<60, N>::keygen(h, s);
    std::vector<int> p;
    int np = 0;
    for (int i = 0; i < N; i++) if (s[i]) { pos[i]++; p.push_back(i); if (s[i] > 0) { plus[i]++; np++; } }
    sumw2 += (np - h / 2.0) * (np - h / 2.0);
    for (size_t a = 0; a + 1 < p.size(); a++) for (size_t b = a + 1; b < p.size() && b < a + 12; b++) { int d = p[b] - p[a]; lag[d]++; if (s[p[a]] == s[p[b]]) samesign[d]++; }
    for (int i = 0; i < N; i++) if (s[i] && prev[i]) { overlap++; if (s[i] == prev[i]) signagree++; }
    memcpy(prev, s, sizeof s);
    if (!keys.insert(hbytes(s, sizeof s)).second) repeats++;
    cover(hmix(hbytes(s, sizeof s), m), h > 0);
    cat("keys in statistics");
  }
  double f = (double)h / N;
  for (int i = 0; i < N; i++) {
    binom("position-bias", "occupation of one position", M, f, pos[i]);
    binom("sign-bias", "positive signs at one position", pos[i], 0.5, plus[i]);
  }
  long tp = 0, ta = 0;
  for (int i = 0; i < N; i++) { tp += plus[i]; ta += pos[i]; }
  binom("sign-bias", "positive signs overall", ta, 0.5, tp);
  double ss = 0, sl = 0;
  for (int d = 1; d < N; d++) { ss += samesign[d]; sl += lag[d]; if (lag[d] > 100) binom("sign-dependence", "equal signs at one distance", lag[d], 0.5, samesign[d]); }
  binom("sign-dependence", "equal signs of neighbours", sl, 0.5, ss);
  binom("key-dependence", "positions shared with the previous key", (double)(M - 1) * h, f, overlap);
  if (overlap > 100) binom("key-dependence", "signs shared with the previous key", overlap, 0.5, signagree);
  if (h >= 2) {  // number of positive signs varies like a fair binomial
    double var = sumw2 / M, ex = h / 4.0, sd = ex * std::sqrt(2.0 / M + 2.0 / (h * (double)M));
    if (std::fabs(var - ex) > SIG * sd) viol("sign-dependence", "variance of the number of positive signs is %.4f, expected %.4f", var, ex);
  }
  // chance of a repeat: M^2/2 / (C(N,h) 2^h)
  double lg = h * std::log(2.0) + std::lgamma(N + 1) - std::lgamma(h + 1) - std::lgamma(N - h + 1);
  double ex = std::exp(2 * std::log((double)M) - std::log(2.0) - lg);
  if (repeats > ex + 10 * std::sqrt(ex) + (ex > 1e-6 ? 3 : 0)) viol("repeat", "%ld of %d successive keys are repeats", repeats, M);
}
// large degrees: positions by every bit, in 64 coarse bins, and signs by every bit of the position
template <int N> void large(int h, int M) {
  Rng r = rng_for("large", N * 1024 + h);
  std::vector<int> s(N);
  std::vector<double> hi(64), bit(32), sb(32);
  double n = 0;
  int D = bitlen(Z(N)) - 1;
  srand((unsigned)r.next());
  for (int m = 0; m < M; m++) {
    setcase("statistics over successive keys N=%d h=%d key %d", N, h, m);
    for (auto &x : s) x = m;
    HEAAN<60, N>::keygen(h, s.data());
    int w = 0;
    for (int i = 0; i < N; i++) if (s[i]) {
      if (s[i] != 1 && s[i] != -1) viol("ternary", "entry %d is %d", i, s[i]);
      w++; n++; hi[(long long)i * 64 / N]++;
      for (int b = 0; b < D; b++) if (i >> b & 1) { bit[b]++; if (s[i] > 0) sb[b]++; }
    }
    if (w != h) viol("weight", "key has %d non-zero entries, requested %d", w, h);
    cover(hmix(hbytes(s.data(), 4 * N), m), h > 0);
    cat("keys of large degree in statistics");
  }
  for (int b = 0; b < 64; b++) binom("position-bias", "occupation of one of 64 ranges", n, 1.0 / 64, hi[b]);
  for (int b = 0; b < D; b++) {
    binom("position-bias", "one bit of the position", n, 0.5, bit[b]);
    binom("sign-bias", "positive signs where one bit of the position is set", bit[b], 0.5, sb[b]);
  }
}
static void body() {
#if CHUNK == 0
  shape<60, 2>(); shape<60, 4>(); shape<64, 8>(); shape<100, 16>(); shape<60, 32>(); shape<1450, 64>(); shape<60, 128>(); shape<60, 256>(); shape<60, 512>(); shape<60, 1024>(); shape<60, 4096>(); shape<60, 65536>(); shape<60, 131072>();
#else
  long M = scale(40000, 1000000);
  stats<16>(4, M); stats<32>(16, M); stats<64>(8, M); stats<64>(64, M); stats<8>(7, M);
  stats<256>(32, M / 2); stats<512>(128, M / 4); stats<128>(1, M); stats<1024>(192, M / 10);
  large<4096>(192, M / 40); large<16384>(192, M / 60); large<65536>(128, M / 80); large<131072>(192, M / 160);
#endif
  sample("%s", casebuf());
}
VH_MAIN(body)
