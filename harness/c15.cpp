// C15: homomorphic arithmetic against arithmetic on exact phases.
#include "HEAAN/core.h"
#define VH_HEAAN
#include "he.h"
using namespace vh;

template <int L, int N> void go(int keys, int cts) {
  Rng r = rng_for("hom", L * 65536 + N);
  auto K = mk<R_Q_square<2 * L, N>>();
  auto A = mk<R_Q_square<L, N>>(), B = mk<R_Q_square<L, N>>(), D = mk<R_Q_square<L, N>>();
  auto P = mk<R_Q<L, N>>();
  keys *= (int)scale(1, 8);
  for (int kk = 0; kk < keys; kk++) {
    std::vector<int> s = genkey(r, N, kk);
    if (kk % 3 == 2) { s.assign(N, 3); HEAAN<L, N>::keygen((int)r.below(std::min(N, 8192 * 1024 / N) + 1), s.data()); }
    int h = weightof(s);
    std::vector<int> sq(N, 0x1234567);
    conv<N>(s.data(), s.data(), sq.data());
    if (sq != intneg(s, s)) viol("key-square", "squared key is wrong");
    srand((unsigned)r.next());
    poison(K->v, r.next());
    HEAAN<L, N>::swkgen(sq.data(), s.data(), K->v);
    Z bnd = 4 * N + (h + 3) / 2;
    if (L < bitlen(bnd) + 2) continue;
    u64 hk = hct(K->v);
    for (int t = 0; t < cts; t++) {
      genct(r, A->v); genct(r, B->v); genring(r, P->v, (int)r.below(9));
      if (t == 0) { genring(r, A->v[1], 0); genring(r, B->v[1], 1); }
      if (t == 1) { genring(r, A->v[1], 1); genring(r, B->v[1], 1); }
      if (t % 4 == 3) HEAAN<L, N>::enc(P->v, s.data(), A->v);
      u64 ha = hct(A->v), hb = hct(B->v), hp = hobj(P->v);
      Poly pa = phase(A->v, s), pb = phase(B->v, s), w(N);
      u64 word = genw(r);
      auto same_ = [&](const char *what, const Poly &want) {
        if (maxdiff(phase(D->v, s), want, L) != 0) viol(what, "decryption after %s differs from the plaintext operation (width %d N %d)", what, L, N);
        if (!canonical(D->v)) viol("canonical", "result of %s not canonical", what);
        cat(what);
      };
      setcase("ciphertext arithmetic <%d,%d> key weight %d case %d a1[0]=%s", L, N, h, t, sz(toz(A->v[1][0])).c_str());
      D->v = A->v; D->v += B->v; for (int i = 0; i < N; i++) w[i] = pa[i] + pb[i]; same_("addition", w);
      D->v = A->v; D->v -= B->v; for (int i = 0; i < N; i++) w[i] = pa[i] - pb[i]; same_("subtraction", w);
      D->v = A->v; D->v += D->v; for (int i = 0; i < N; i++) w[i] = 2 * pa[i]; same_("doubling", w);
      D->v = A->v; D->v *= word; for (int i = 0; i < N; i++) w[i] = pa[i] * zu(word); same_("word product", w);
      D->v = A->v; D->v *= P->v; same_("plaintext product", negacyclic(pa, top(P->v)));
      if (hct(A->v) != ha || hct(B->v) != hb || hobj(P->v) != hp) viol("operand", "an operand was changed");
      cover(hmix(hmix(ha, hb), hmix(hp, word)), true);
      for (int sqr = 0; sqr < 2; sqr++) {
        poison(D->v, r.next());
        setcase("Mul<%d,%d> %s key weight %d case %d a1[0]=%s b1[0]=%s", L, N, sqr ? "squaring" : "product", h, t, sz(toz(A->v[1][0])).c_str(), sz(toz(B->v[1][0])).c_str());
        if (sqr) Mul<L, N>(A->v, A->v, K->v, D->v); else Mul<L, N>(A->v, B->v, K->v, D->v);
        Poly want = negacyclic(pa, sqr ? pa : pb);
        int at = 0;
        Z m = maxdiff(phase(D->v, s), want, L, &at);
        if (m > bnd) viol("mul-noise", "product off by %s at coefficient %d, allowed %s", sz(m).c_str(), at, bnd.get_str().c_str());
        catmax("max product noise per cent of the bound", 100.0 * m.get_d() / bnd.get_d());
        if (!canonical(D->v)) viol("canonical", "product not canonical");
        if (hct(A->v) != ha || hct(B->v) != hb || hct(K->v) != hk) viol("operand", "Mul changed an operand");
        cover(hmix(hmix(ha, hb), hmix(hk, sqr)), true);
        cat("ciphertext products");
      }
      if (!A->ok() || !B->ok() || !D->ok() || !K->ok() || !P->ok()) viol("overrun", "write outside an object");
    }
  }
  cat("(width, N) pairs");
  sample("%s", casebuf());
}
static void body() {
#if CHUNK == 0
  go<10, 4>(28, 12); go<31, 4>(28, 12); go<32, 8>(28, 12); go<33, 8>(21, 12); go<60, 2>(21, 12); go<63, 4>(21, 12); go<64, 4>(21, 12); go<65, 8>(21, 12);
#elif CHUNK == 1
  go<60, 16>(21, 10); go<62, 32>(14, 8); go<64, 16>(14, 8); go<96, 8>(21, 10); go<100, 16>(14, 8); go<127, 8>(14, 8); go<128, 16>(14, 8);
#elif CHUNK == 2
  go<129, 8>(14, 8); go<150, 32>(14, 8); go<180, 16>(14, 8); go<192, 8>(14, 8); go<320, 8>(14, 8); go<60, 64>(14, 8);
#elif CHUNK == 3
  go<450, 16>(14, 6); go<640, 8>(14, 6); go<850, 32>(7, 5); go<1000, 8>(14, 5); go<1390, 8>(14, 4); go<1450, 16>(14, 4);
#elif CHUNK == 4
  go<60, 128>(14, 5); go<61, 256>(14, 4); go<100, 64>(14, 5); go<120, 128>(7, 4);
#elif CHUNK == 5
  go<60, 512>(7, 3); go<62, 1024>(7, 2); go<800, 64>(7, 3); go<1450, 128>(7, 2);
#else
  go<60, 4096>(5, 1); go<130, 8192>(4, 1); go<64, 16384>(4, 1);
#endif
}
VH_MAIN(body)
