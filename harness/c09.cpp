// C09: fft / ifft / dft / idft / splitU0NR against the long-double embedding.
#include "HEAAN/matrix/DFT.h"
#include "emb.h"
using namespace vh;

template <int N> struct Buf { double g0[4]; double v[N]; double g1[4]; Buf() { for (int i = 0; i < 4; i++) g0[i] = g1[i] = 1234.5 + i; } bool ok() const { for (int i = 0; i < 4; i++) if (g0[i] != 1234.5 + i || g1[i] != 1234.5 + i) return false; return true; } };

static void genv(Rng &r, std::vector<double> &m, int &style) {
  int n = (int)m.size();
  std::fill(m.begin(), m.end(), 0.0);
  style = (int)r.below(12);
  double sc = 1;
  switch (style) {
    case 0: m[r.below(n)] = 1; break;
    case 1: for (auto &x : m) x = 1; break;
    case 2: for (int i = 0; i < n; i++) m[i] = i % 2 ? -1 : 1; break;
    case 3: sc = std::ldexp(1.0, r.range(-300, 300)); for (auto &x : m) x = r.sym() * sc; break;
    case 4: for (auto &x : m) x = std::round(r.sym() * 1e6); break;
    case 5: for (auto &x : m) x = r.gauss(); break;
    case 6: for (int k = 0; k < 3; k++) m[r.below(n)] = r.sym() * 1e9; break;
    case 7: for (int i = 0; i < n / 2; i++) m[i] = r.sym(); break;
    case 8: for (int i = n / 2; i < n; i++) m[i] = r.sym(); break;
    case 9: for (auto &x : m) x = r.sym() * std::pow(10.0, r.range(-9, 9)); break;
    default: for (auto &x : m) x = r.sym();
  }
}

template <int LOGN> void go(int per, int slots, bool direct) {
  const int N = 1 << LOGN;
  const Emb &E = emb(N);
  Rng r = rng_for("dft", LOGN);
  auto M = std::make_unique<Buf<N>>(), M2 = std::make_unique<Buf<N>>(), MD = std::make_unique<Buf<N>>();
  auto ZR = std::make_unique<Buf<N / 2>>(), ZI = std::make_unique<Buf<N / 2>>(), DR = std::make_unique<Buf<N / 2>>(), DI = std::make_unique<Buf<N / 2>>();
  const double TF = 16 * (LOGN + 4) * U53, TD = (32 + N / 4) * U53;
  for (int t = 0; t < per; t++) {
    std::vector<double> m(N);
    int style;
    genv(r, m, style);
    if (t < N && t < 16) { std::fill(m.begin(), m.end(), 0.0); m[t < 8 ? t % N : N - 1 - (t - 8) % N] = 1; }
    std::vector<ld> ml(m.begin(), m.end());
    double sum = 0;
    for (double x : m) sum += std::fabs(x);
    setcase("LOGN=%d forward, shape %d round %d m[0]=%.17g m[1]=%.17g", LOGN, style, t, m[0], m[1]);
    memcpy(M->v, m.data(), 8 * N);
    for (int i = 0; i < N / 2; i++) ZR->v[i] = ZI->v[i] = DR->v[i] = DI->v[i] = NAN;
    fft<LOGN>(M->v, ZR->v, ZI->v);
    if (memcmp(M->v, m.data(), 8 * N)) viol("operand", "fft changed its input");
    if (direct) { dft<N>(M->v, DR->v, DI->v); if (memcmp(M->v, m.data(), 8 * N)) viol("operand", "dft changed its input"); }
    std::vector<int> idx;
    if (slots >= N / 2) for (int i = 0; i < N / 2; i++) idx.push_back(i);
    else for (int i = 0; i < slots; i++) idx.push_back(i < 2 ? (i ? N / 2 - 1 : 0) : (int)r.below(N / 2));
    for (int i : idx) {
      ld a, b;
      E.slot(ml.data(), i, a, b);
      double e = (double)std::max(fabsl(a - ZR->v[i]), fabsl(b - ZI->v[i]));
      if (!(e <= TF * sum + 1e-300)) { viol("fft", "slot %d of %d is %.17g%+.17gi, exact value %.17Lg%+.17Lgi", i, N / 2, ZR->v[i], ZI->v[i], a, b); break; }
      if (direct) {
        e = (double)std::max(fabsl(a - DR->v[i]), fabsl(b - DI->v[i]));
        if (!(e <= TD * sum + 1e-300)) { viol("dft", "slot %d of %d is %.17g%+.17gi, exact value %.17Lg%+.17Lgi", i, N / 2, DR->v[i], DI->v[i], a, b); break; }
      }
      cat("slots compared");
    }
    // the bit-reversed variant
    for (int i = 0; i < N / 2; i++) { unsigned j = brev(i, LOGN - 1); M2->v[j] = m[i]; M2->v[j + N / 2] = m[i + N / 2]; }
    for (int i = 0; i < N / 2; i++) DR->v[i] = DI->v[i] = NAN;
    fftNR<LOGN>(M2->v, DR->v, DI->v);
    for (int i = 0; i < N / 2; i++) if (!(std::fabs(DR->v[i] - ZR->v[i]) <= 2 * TF * sum + 1e-300 && std::fabs(DI->v[i] - ZI->v[i]) <= 2 * TF * sum + 1e-300)) { viol("fftNR", "slot %d differs between fftNR and fft", i); break; }
    // back
    for (int i = 0; i < N; i++) M2->v[i] = MD->v[i] = NAN;
    std::vector<double> kr(ZR->v, ZR->v + N / 2), ki(ZI->v, ZI->v + N / 2);
    ifft<LOGN>(ZR->v, ZI->v, M2->v);
    if (memcmp(kr.data(), ZR->v, 4 * N) || memcmp(ki.data(), ZI->v, 4 * N)) viol("operand", "ifft changed its input");
    for (int i = 0; i < N; i++) if (!(std::fabs(M2->v[i] - m[i]) <= 4 * TF * sum + 1e-300)) { viol("ifft-fft", "coefficient %d comes back as %.17g, was %.17g", i, M2->v[i], m[i]); break; }
    cover(hmix(hbytes(m.data(), 8 * N), LOGN), sum != 0);
    cat("forward transforms");
    // inverse of arbitrary slots
    std::vector<double> zz(N);
    genv(r, zz, style);
    if (t < 8) { std::fill(zz.begin(), zz.end(), 0.0); zz[t % N] = 1; zz[(t * 3 + N / 2) % N] = -2; }
    double zsum = 0;
    for (int i = 0; i < N; i++) zsum += std::fabs(zz[i]);
    setcase("LOGN=%d inverse, shape %d round %d zr[0]=%.17g zi[0]=%.17g", LOGN, style, t, zz[0], zz[N / 2]);
    memcpy(ZR->v, zz.data(), 4 * N); memcpy(ZI->v, zz.data() + N / 2, 4 * N);
    for (int i = 0; i < N; i++) M2->v[i] = MD->v[i] = NAN;
    ifft<LOGN>(ZR->v, ZI->v, M2->v);
    if (direct) idft<N>(ZR->v, ZI->v, MD->v);
    std::vector<int> ix;
    if (slots >= N / 2) for (int i = 0; i < N; i++) ix.push_back(i);
    else for (int i = 0; i < slots; i++) ix.push_back((int)r.below(N));
    for (int k : ix) {
      ld a = E.coef(ZR->v, ZI->v, k);
      double tol = TF * zsum * 2 / N, told = TD * zsum * 2 / N;
      if (!(fabsl(a - M2->v[k]) <= tol + 1e-300)) { viol("ifft", "coefficient %d of %d is %.17g, exact value %.17Lg", k, N, M2->v[k], a); break; }
      if (direct && !(fabsl(a - MD->v[k]) <= told + 1e-300)) { viol("idft", "coefficient %d of %d is %.17g, exact value %.17Lg", k, N, MD->v[k], a); break; }
      cat("coefficients compared");
    }
    for (int i = 0; i < N; i++) MD->v[i] = NAN;
    ifftNR<LOGN>(ZR->v, ZI->v, MD->v);
    for (int i = 0; i < N / 2; i++) {
      unsigned j = brev(i, LOGN - 1);
      double tol = 2 * TF * zsum * 2 / N + 1e-300;
      if (!(std::fabs(MD->v[j] - M2->v[i]) <= tol && std::fabs(MD->v[j + N / 2] - M2->v[i + N / 2]) <= tol)) { viol("ifftNR", "coefficient %d differs between ifftNR and ifft", i); break; }
    }
    fft<LOGN>(M2->v, DR->v, DI->v);
    for (int i = 0; i < N / 2; i++) if (!(std::fabs(DR->v[i] - ZR->v[i]) <= 4 * TF * zsum + 1e-300 && std::fabs(DI->v[i] - ZI->v[i]) <= 4 * TF * zsum + 1e-300)) { viol("fft-ifft", "slot %d comes back as %.17g%+.17gi", i, DR->v[i], DI->v[i]); break; }
    cover(hmix(hbytes(zz.data(), 8 * N), LOGN + 100), zsum != 0);
    cat("inverse transforms");
    if (!M->ok() || !M2->ok() || !MD->ok() || !ZR->ok() || !ZI->ok() || !DR->ok() || !DI->ok()) viol("overrun", "write outside an array at LOGN=%d", LOGN);
  }
  cat("lengths");
  sample("%s", casebuf());
}

// the published factors multiply to the bit-reversed transform matrix
template <int LOGN> void split() {
  const int N = 1 << LOGN, H = N / 2;
  typedef std::complex<double> C;
  const Emb &E = emb(N);
  setcase("splitU0NR<%d>", LOGN);
  std::vector<SparseDiagonal<H, 3>> Ar(LOGN - 1), Ai(LOGN - 1);
  for (int k = 0; k < 2; k++) {
    for (auto *v : {&Ar, &Ai}) for (auto &a : *v) poison(a, 99 + k);
    splitU0NR<LOGN>(Ar.data(), Ai.data());
  }
  std::vector<C> P((size_t)H * H);
  for (int i = 0; i < H; i++) P[(size_t)i * H + i] = 1;
  for (int n = 0; n < LOGN - 1; n++) {
    std::vector<C> Q((size_t)H * H);
    for (int s = 0; s < 3; s++) {
      if (Ar[n].off[s] != Ai[n].off[s]) viol("split", "offsets of real and imaginary part differ");
      if (Ar[n].off[s] < 0 || Ar[n].off[s] >= H + 0 + (H == 0)) viol("split", "offset %d out of range", Ar[n].off[s]);
      for (int k = 0; k < H; k++) {
        C v(Ar[n].vec[s][k], Ai[n].vec[s][k]);
        if (v == C(0)) continue;
        if (Ar[n].zero[s] && Ai[n].zero[s]) viol("split", "non-empty diagonal marked empty");
        int j = (k + Ar[n].off[s]) % H;
        for (int i = 0; i < H; i++) Q[(size_t)i * H + j] += P[(size_t)i * H + k] * v;
      }
    }
    // element access agrees with the diagonals
    for (int t = 0; t < 4 * H; t++) {
      int i = t % H, j = (t * 7 + t / H) % H;
      double want = 0, wi = 0;
      for (int s = 0; s < 3; s++) if ((j - i - Ar[n].off[s]) % H == 0) { want += Ar[n].vec[s][i]; wi += Ai[n].vec[s][i]; }
      if (Ar[n].get_element(i, j) != want || Ai[n].get_element(i, j) != wi) viol("split", "get_element(%d,%d) of factor %d inconsistent", i, j, n);
    }
    P.swap(Q);
  }
  for (int i = 0; i < H; i++)
    for (int k = 0; k < H; k++) {
      unsigned e = (unsigned)((unsigned long long)E.p5[i] * k) & (2 * N - 1);
      C w((double)E.c[e], (double)E.s[e]), g = P[(size_t)i * H + brev(k, LOGN - 1)];
      if (!(std::abs(w - g) <= 1e-13 * LOGN)) { viol("split", "LOGN=%d product entry (%d,%d) is %.15g%+.15gi, expected %.15g%+.15gi", LOGN, i, k, g.real(), g.imag(), w.real(), w.imag()); i = H; break; }
      cover(hmix(i * 65536 + k, 5000 + LOGN));
      cat("matrix entries compared");
    }
}
static void body() {
  int k = (int)scale(3, 40);
#if CHUNK == 0
  go<2>(500 * k, 99999, true); go<3>(500 * k, 99999, true); go<4>(400 * k, 99999, true); go<5>(300 * k, 99999, true);
  split<2>(); split<3>(); split<4>(); split<5>(); split<6>(); split<7>();
#elif CHUNK == 1
  go<6>(200 * k, 99999, true); go<7>(150 * k, 99999, true); go<8>(80 * k, 99999, true); go<9>(30 * k, 99999, true); split<8>();
#elif CHUNK == 2
  go<10>(14 * k, 99999, true); go<11>(8 * k, 99999, true); split<9>();
#else
  go<12>(6 * k, 64, true); go<13>(5 * k, 64, false); go<14>(4 * k, 40, false); go<15>(3 * k, 40, false); go<16>(2 * k, 40, false);
#endif
}
VH_MAIN(body)
