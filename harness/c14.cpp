// C14: key switching, rotation and conjugation of ciphertexts: exact phases and noise bounds.
#include "HEAAN/linear_transform.h"
#define VH_HEAAN
#include "he.h"
using namespace vh;

template <int L, int N> void go(int keys, int cts) {
  Rng r = rng_for("ks", L * 65536 + N);
  auto K = mk<R_Q_square<2 * L, N>>();
  auto C = mk<R_Q_square<L, N>>(), D = mk<R_Q_square<L, N>>();
  auto O = mk<R_Q<L, N>>();
  keys *= (int)scale(1, 8);
  for (int kk = 0; kk < keys; kk++) {
    std::vector<int> to = genkey(r, N, (int)r.below(7)), fr(N);
    if (r.below(3) == 0) { to.assign(N, 3); HEAAN<L, N>::keygen((int)r.below(std::min(N, 8192 * 1024 / N) + 1), to.data()); }
    int style = kk % 6, amt = 0;
    const char *nm = "";
    if (kk == 1 && N <= 8192) to.assign(N, 1);  // largest square: coefficients up to N
    std::vector<int> s2 = genkey(r, N, (int)r.below(5));
    switch (style) {
      case 0: fr = s2; nm = "independent ternary"; break;
      case 1: fr = intneg(to, to); nm = "squared"; break;
      case 2: {
        static const int mag[] = {20, 127, 128, 129, 255, 256, 257, 1000, 32767, 32768, 70000, 300000};
        int top = N <= 32 ? 12 : N <= 128 ? 9 : 7, c = kk / 6 % 3;
        for (auto &x : fr) x = r.range(-20, 20);
        if (c) for (int i = 0; i < std::min(N, 8); i++) { int v = mag[r.below(top)]; fr[r.below(N)] = r.coin() ? v : -v; }
        if (c == 2) for (int i = 0; i < std::min(N, 12); i++) fr[(i * 7 + 1) % N] = (i & 1 ? -1 : 1) * mag[i % top];
        nm = "integer"; break;
      }
      case 3: amt = (int)r.below(N); fr = galint(to, p5(amt, N)); nm = "rotated"; break;
      case 4: fr = galint(to, 2 * N - 1); nm = "conjugated"; break;
      default: fr = to; nm = "same"; break;
    }
    auto fr0 = fr, to0 = to;
    int h = weightof(to);
    Z bnd = 8 * N + (h + 3) / 2;
    if (L < bitlen(bnd) + 2) continue;
    srand((unsigned)r.next());
    poison(K->v, r.next());
    setcase("swkgen<%d,%d> from a %s key to a key of weight %d", L, N, nm, h);
    HEAAN<L, N>::swkgen(fr.data(), to.data(), K->v);
    if (fr != fr0 || to != to0) viol("operand", "swkgen changed a key");
    {
      Poly ph = phase(K->v, to), w(N);
      for (int i = 0; i < N; i++) w[i] = zs(fr[i]) << L;
      Z m = maxdiff(ph, w, 2 * L);
      if (m > 8) viol("swk-noise", "switching key encrypts Q*s_fr with error %s", sz(m).c_str());
      if (!canonical(K->v)) viol("canonical", "switching key not canonical");
      cat("switching keys");
    }
    u64 hk = hct(K->v);
    for (int t = 0; t < cts; t++) {
      genct(r, C->v);
      if (t == 0) { genring(r, C->v[1], 0); }
      if (t == 1) { genring(r, C->v[1], 1); }
      Poly before = phase(C->v, fr);
      u64 hc = hct(C->v);
      setcase("ks<%d,%d> from a %s key to a key of weight %d, ciphertext %d c1[0]=%s", L, N, nm, h, t, sz(toz(C->v[1][0])).c_str());
      D->v = C->v;
      HEAAN<L, N>::ks(K->v, D->v);
      int at = 0;
      Poly after = phase(D->v, to);
      Z m = maxdiff(after, before, L, &at);
      if (m > bnd) viol("ks-noise", "plaintext changed by %s at coefficient %d, allowed %s", sz(m).c_str(), at, bnd.get_str().c_str());
      catmax("max key-switch noise per cent of the bound", 100.0 * m.get_d() / bnd.get_d());
      if (!canonical(D->v)) viol("canonical", "key-switched ciphertext not canonical");
      if (h > 0 || t) {
        poison(O->v, r.next());
        HEAAN<L, N>::dec(D->v, to.data(), O->v);
        if (top(O->v) != after) viol("dec", "decryption of the switched ciphertext is inconsistent");
      }
      cover(hmix(hc, hk), true);
      cat("key switches");
      if (style == 3) {
        // rotate a ciphertext under `to`
        std::vector<int> &s = to;
        Poly want = galp(phase(C->v, s), p5(amt, N));
        poison(D->v, r.next());
        setcase("rot_ct<%d,%d> by %d, key weight %d, ciphertext %d", L, N, amt, h, t);
        rot_ct<L, N>(C->v, amt, K->v, D->v);
        Z m2 = maxdiff(phase(D->v, s), want, L);
        if (m2 > bnd) viol("rot_ct", "rotated plaintext off by %s, allowed %s", sz(m2).c_str(), bnd.get_str().c_str());
        if (hct(C->v) != hc || hct(K->v) != hk) viol("operand", "rot_ct changed its input");
        cat("ciphertext rotations");
        cover(hmix(hmix(hc, hk), amt + 1), true);
      }
      if (style == 4) {
        Poly want = galp(phase(C->v, to), 2 * N - 1);
        poison(D->v, r.next());
        setcase("conj of a ciphertext <%d,%d>, key weight %d, ciphertext %d", L, N, h, t);
        conj<L, N>(C->v, K->v, D->v);
        Z m2 = maxdiff(phase(D->v, to), want, L);
        if (m2 > bnd) viol("conj_ct", "conjugated plaintext off by %s, allowed %s", sz(m2).c_str(), bnd.get_str().c_str());
        if (hct(C->v) != hc || hct(K->v) != hk) viol("operand", "conj changed its input");
        cat("ciphertext conjugations");
        cover(hmix(hmix(hc, hk), 7777), true);
      }
      if (!C->ok() || !D->ok() || !K->ok() || !O->ok()) viol("overrun", "write outside an object");
    }
  }
  // every rotation amount
  std::vector<int> am;
  if (N <= 64) for (int a = 0; a <= N + 2; a++) am.push_back(a);
  else for (int a : {0, 1, N / 4, N / 2 - 1, N / 2, N / 2 + 1, N - 1, 3 * N + 5}) am.push_back(a);
  std::vector<int> s = genkey(r, N, 0);
  int h = weightof(s);
  for (int a : am) {
    if (L < bitlen(Z(8 * N + h)) + 2) break;
    std::vector<int> sr(N);
    rot<N>(s.data(), sr.data(), a);
    HEAAN<L, N>::swkgen(sr.data(), s.data(), K->v);
    genct(r, C->v);
    Poly want = galp(phase(C->v, s), p5(a, N));
    poison(D->v, r.next());
    setcase("rot_ct<%d,%d> by %d with a key from rot()", L, N, a);
    rot_ct<L, N>(C->v, a, K->v, D->v);
    Z bnd = 8 * N + (h + 3) / 2, m = maxdiff(phase(D->v, s), want, L);
    if (m > bnd) viol("rot_ct", "rotation by %d: plaintext off by %s, allowed %s", a, sz(m).c_str(), bnd.get_str().c_str());
    cover(hmix(hct(C->v), a), true);
    cat("ciphertext rotations");
    cat("rotation amounts swept");
  }
  cat("(width, N) pairs");
  sample("%s", casebuf());
}
static void body() {
#if CHUNK == 0
  go<12, 4>(24, 12); go<31, 4>(24, 12); go<32, 8>(24, 12); go<33, 8>(18, 12); go<60, 2>(18, 12); go<63, 4>(18, 12); go<64, 4>(18, 12); go<65, 8>(18, 12);
#elif CHUNK == 1
  go<60, 16>(18, 10); go<62, 32>(18, 8); go<64, 16>(18, 8); go<96, 8>(18, 10); go<100, 16>(18, 8); go<127, 8>(18, 8); go<128, 16>(18, 8);
#elif CHUNK == 2
  go<129, 8>(18, 8); go<150, 32>(12, 8); go<180, 16>(12, 8); go<192, 8>(12, 8); go<320, 8>(12, 8); go<60, 64>(12, 8);
#elif CHUNK == 3
  go<450, 16>(12, 6); go<640, 8>(12, 6); go<850, 32>(12, 4); go<1000, 8>(12, 5); go<1390, 8>(12, 4); go<1450, 16>(12, 4);
#elif CHUNK == 4
  go<60, 128>(12, 5); go<61, 256>(12, 4); go<100, 64>(12, 5); go<120, 128>(6, 4);
#elif CHUNK == 5
  go<60, 512>(6, 3); go<62, 1024>(6, 2); go<800, 64>(6, 3); go<1450, 128>(6, 2);
#else
  go<60, 4096>(6, 1); go<130, 8192>(6, 1); go<64, 16384>(6, 1);
#endif
}
VH_MAIN(body)
