// P20 bounded contract harness: the C interface for all value types and both storages against the C++ interface; null / unset / mismatched / invalid input; caller data bit-identical afterwards.
#define HIF_STDOUT(m) ((void)0)
#define HIF_STDERR(m) ((void)0)
#include "nat.hpp"
#include "../src/libhifir.cpp"
#include <fstream>
#include <sys/stat.h>
static bool oom = false;   // the next allocations fail
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { if (oom) return nullptr; try { return ::operator new(n); } catch (...) { return nullptr; } }
using namespace nat;
typedef std::complex<double> Z; typedef std::complex<float> C;
template <class T> struct Api;
#define API(T, CT, x) template <> struct Api<T> { typedef Lhf##x##MatrixHdl MH; typedef Lhf##x##HifHdl HH; typedef T scalar; \
  static MH cm(int r, size_t n, const LhfIndPtr *p, const LhfInt *i, const T *v) { return lhf##x##CreateMatrix(r, n, p, i, (const CT *)v); } static LhfStatus dm(MH m) { return lhf##x##DestroyMatrix(m); } \
  static size_t ms(MH m) { return lhf##x##GetMatrixSize(m); } static size_t mn(MH m) { return lhf##x##GetMatrixNnz(m); } static LhfStatus wm(MH m, size_t n, const LhfIndPtr *p, const LhfInt *i, const T *v) { return lhf##x##WrapMatrix(m, n, p, i, (const CT *)v); } \
  static LhfStatus rs(const char *f, MH m) { return lhf##x##ReadSparse(f, m); } static LhfStatus rv(const char *f, size_t n, T *v) { return lhf##x##ReadVector(f, n, (CT *)v); } \
  static HH cr(MH a, MH s, const double *p) { return lhf##x##Create(a, s, p); } static LhfStatus de(HH h) { return lhf##x##Destroy(h); } static LhfStatus se(HH h, MH a, MH s, const double *p) { return lhf##x##Setup(h, a, s, p); } \
  static LhfStatus up(HH h, MH a) { return lhf##x##Update(h, a); } static LhfStatus rf(HH h, MH s, const double *p) { return lhf##x##Refactorize(h, s, p); } \
  static LhfStatus ap(HH h, LhfOperationType op, const T *b, int nirs, const double *be, int rk, T *x_, int *st) { return lhf##x##Apply(h, op, (const CT *)b, nirs, be, rk, (CT *)x_, st); } static LhfStatus so(HH h, const T *b, T *x_) { return lhf##x##Solve(h, (const CT *)b, (CT *)x_); } \
  static LhfStatus gs(HH h, size_t *s) { return lhf##x##GetStats(h, s); } static size_t gn(HH h) { return lhf##x##GetNnz(h); } static size_t gl(HH h) { return lhf##x##GetLevels(h); } static size_t gz(HH h) { return lhf##x##GetSchurSize(h); } static size_t gr(HH h) { return lhf##x##GetSchurRank(h); } };
API(double, double, d) API(float, float, s) API(Z, double _Complex, z) API(C, float _Complex, c)
template <class T> static T rv(Rng &r) { return T(r.in(-4, 4)); } template <> Z rv<Z>(Rng &r) { return Z(r.in(-4, 4), r.in(-4, 4)); } template <> C rv<C>(Rng &r) { return C(r.in(-4, 4), r.in(-4, 4)); }
// caller data in exactly sized heap blocks, compared bit by bit
template <class T> struct Mat { size_t n; bool row; std::vector<LhfIndPtr> p; std::vector<LhfInt> i; std::vector<T> v; LhfIndPtr *P = 0; LhfInt *I = 0; T *V = 0;
  ~Mat() { free(P); free(I); free(V); } Mat() = default; Mat(const Mat &) = delete;
  void out() { P = (LhfIndPtr *)malloc(p.size() * sizeof(LhfIndPtr)); I = (LhfInt *)malloc(std::max<size_t>(1, i.size()) * sizeof(LhfInt)); V = (T *)malloc(std::max<size_t>(1, v.size()) * sizeof(T)); std::copy(p.begin(), p.end(), P); std::copy(i.begin(), i.end(), I); std::copy(v.begin(), v.end(), V); }
  void same(const char *w) const { CHECK(!memcmp(P, p.data(), p.size() * sizeof(LhfIndPtr)) && (i.empty() || (!memcmp(I, i.data(), i.size() * sizeof(LhfInt)) && !memcmp(V, v.data(), v.size() * sizeof(T)))), "%s: the wrapped matrix was modified", w); }
  void gen(Rng &r, size_t n_, int kind = 0) { n = n_; row = r.p(.5); p.assign(1, 0); i.clear(); v.clear(); const int base = kind == 0 && r.p(.2); const double dens = r.d(.1, 1);
    for (size_t k = 0; k < n; ++k) { for (size_t j = 0; j < n; ++j) if (kind == 3 ? (j != 0 && r.p(.5)) : (j == k || r.p(dens))) { i.push_back((LhfInt)j); v.push_back(kind == 2 ? T(1) : rv<T>(r) + (j == k ? T(6 + 3 * (int)n) : T(0))); } p.push_back((LhfIndPtr)i.size()); }
    if (base) { for (auto &x : p) ++x; for (auto &x : i) ++x; } }
  void show() const { ctx() << (row ? "CRS" : "CCS") << " n " << n << "\n"; showv("indptr", p, p.size()); showv("indices", i, i.size()); showv("vals", v, v.size()); } };
template <class T> struct Vec { std::vector<T> v; T *p; Vec(const std::vector<T> &a) : v(a), p((T *)malloc(std::max<size_t>(1, a.size()) * sizeof(T))) { std::copy(a.begin(), a.end(), p); } ~Vec() { free(p); } Vec(const Vec &) = delete; void same(const char *w) const { CHECK(v.empty() || !memcmp(p, v.data(), v.size() * sizeof(T)), "%s: the right-hand side was modified", w); } };
static void params(Rng &r, std::vector<double> &p) { p.assign(LHF_NUMBER_PARAMS, 0); lhfSetDefaultParams(p.data()); p[LHF_VERBOSE] = r.p(.1) ? LHF_VERBOSE_INFO : 0; p[LHF_THREADS] = 1; if (r.p(.6)) { p[LHF_DROPTOL_L] = r.p(.5) ? 0 : .1; p[LHF_DROPTOL_U] = r.p(.5) ? 0 : .2; p[LHF_COND] = r.d(1.5, 20); p[LHF_COND_D] = r.d(1.5, 20); p[LHF_ALPHA_L] = r.d(1, 30); p[LHF_ALPHA_U] = r.d(1, 30); p[LHF_REORDER] = r.in(0, 2); p[LHF_SYMMPRELVLS] = r.in(-2, 2); p[LHF_PIVOT] = r.in(0, 2); p[LHF_NOPRE] = r.p(.2); p[LHF_RRQR_COND] = r.p(.3) ? 10 : 0; p[LHF_DENSE_THRES] = r.p(.3) ? r.in(1, 8) : 2000; } }
static hif::Params cpp(const std::vector<double> &p) { hif::Params o = hif::get_default_params(); o.tau_L = p[0]; o.tau_U = p[1]; o.kappa_d = p[2]; o.kappa = p[3]; o.alpha_L = p[4]; o.alpha_U = p[5]; o.verbose = p[6]; o.reorder = p[7]; o.symm_pre_lvls = p[8]; o.threads = p[9]; o.rrqr_cond = p[10]; o.pivot = p[11]; o.beta = p[12]; o.is_symm = p[13]; o.no_pre = p[14]; o.nzp_thres = p[15]; o.dense_thres = p[16]; return o; }
template <class T> using Hif = hif::HIF<T, LhfInt, LhfIndPtr>;
template <class T> static void cfac(Hif<T> &M, const Mat<T> &A, const hif::Params &o) { if (A.row) M.template factorize<true>(A.n, A.P, A.I, A.V, o); else M.template factorize<false>(A.n, A.P, A.I, A.V, o); }
template <class T> static hif::Array<T> arr(const std::vector<T> &v) { hif::Array<T> a(v.size()); std::copy(v.begin(), v.end(), a.begin()); return a; }
template <class T, class A> static void eq(const T *g, const A &w, size_t n, const char *what) { for (size_t i = 0; i < n; ++i) { CHECK(g[i] == w[i] || (g[i] != g[i] && w[i] != w[i]), "%s: entry %zu differs from the C++ interface", what, i); } }
static void msg_ok(const char *w) { const char *m = lhfGetErrorMsg(); CHECK(m && *m, "%s: no message retrievable after a failure", w); CHECK(!lhfGetErrorMsg(), "%s: message not cleared after it was read", w); }
template <class T> static std::vector<T> rvec(Rng &r, size_t n) { std::vector<T> v(n); for (auto &x : v) x = rv<T>(r); return v; }
// apply through C and through C++
template <class T, class U, class F> static void apply(Rng &r, const Hif<T> &M, const Mat<U> &A, size_t n, F capply) {
  const LhfOperationType op = (LhfOperationType)r.in(0, 3); const int nirs = r.p(.5) ? r.in(-1, 1) : r.in(2, 5); const bool hb = r.p(.5); const double betas[2] = {r.p(.5) ? 1e-1 : 1e-14, r.p(.2) ? 1e-12 : 1e3}; const int rk = r.p(.7) ? LHF_DEFAULT_RANK : r.p(.3) ? -1 : r.in(0, (int)n);
  ctx() << "op " << op << " nirs " << nirs << " betas " << hb << " " << betas[0] << " " << betas[1] << " rank " << rk << "\n"; Vec<U> b(rvec<U>(r, n)), x(std::vector<U>(n, U(7))); showv("b", b.v, n); int st[2] = {-77, -77}; const bool wantst = r.p(.8);
  const LhfStatus s = capply(op, b.p, nirs, hb ? betas : nullptr, rk, x.p, wantst ? st : nullptr); CHECK(s == LHF_SUCCESS, "Apply returned %d", (int)s); b.same("Apply"); A.same("Apply");
  const auto B = arr<U>(b.v); hif::Array<U> X(n); const bool tr = op == LHF_SH || op == LHF_MH, mul = op >= LHF_M; int w0 = -77, w1 = -77;
  if (mul) M.mmultiply(B, X, tr, rk == LHF_DEFAULT_RANK ? 0 : (size_t)rk); else if (nirs <= 1) M.solve(B, X, tr, rk == LHF_DEFAULT_RANK ? 0 : (size_t)rk);
  else { const size_t R = rk == LHF_DEFAULT_RANK ? (size_t)-1 : (size_t)rk; auto go = [&](const auto &AA) { if (hb) { auto i = M.hifir(AA, B, (size_t)nirs, betas, X, tr, R); w0 = (int)i.first; w1 = i.second; } else M.hifir(AA, B, (size_t)nirs, X, tr, R); }; if (A.row) go(hif::wrap_const_crs(n, n, A.P, A.I, (const U *)A.V, false)); else go(hif::wrap_const_ccs(n, n, A.P, A.I, (const U *)A.V, false)); }
  eq(x.p, X, n, mul ? "product" : nirs <= 1 ? "solve" : "refinement"); if (!wantst) w0 = w1 = -77; CHECK(st[0] == w0 && st[1] == w1, "refinement status (%d,%d) instead of (%d,%d)", st[0], st[1], w0, w1);
}
template <class T> static void stats(typename Api<T>::HH h, const Hif<T> &M) { typedef Api<T> A; size_t s[9]; CHECK(A::gs(h, s) == LHF_SUCCESS, "GetStats"); size_t w[9] = {0}; if (!M.empty()) { w[0] = M.nnz(); w[1] = M.stats(0); w[2] = M.stats(1); w[3] = M.stats(4); w[4] = M.stats(5); w[5] = M.levels(); w[6] = M.rank(); w[7] = M.schur_rank(); w[8] = M.schur_size(); } for (int i = 0; i < 9; ++i) CHECK(s[i] == w[i], "statistic %d is %zu, not %zu", i, s[i], w[i]); CHECK(A::gn(h) == w[0] && A::gl(h) == w[5] && A::gr(h) == w[7] && A::gz(h) == w[8], "query functions disagree with the statistics"); }
template <class T> static typename Api<T>::MH mk(Rng &r, const Mat<T> &A) { typedef Api<T> I; typename I::MH h; if (r.p(.5)) h = I::cm(A.row, A.n, A.P, A.I, A.V); else { h = I::cm(A.row, r.p(.5) ? 0 : 3, nullptr, nullptr, nullptr); CHECK(h && I::ms(h) == 0 && I::mn(h) == 0, "unset matrix handle has size / entries"); CHECK(I::wm(h, A.n, A.P, A.I, A.V) == LHF_SUCCESS, "WrapMatrix"); } CHECK(h && I::ms(h) == A.n && I::mn(h) == A.i.size(), "size / number of entries of a wrapped matrix"); return h; }
template <class T> static void normal(Rng &r) {
  typedef Api<T> I; Mat<T> A, S, S2; const size_t n = r.in(1, 12); A.gen(r, n); S.gen(r, n); S2.gen(r, n); if (A.p[0]) { for (auto &x : A.p) --x; for (auto &x : A.i) --x; } if (r.p(.3)) S.gen(r, n, 2); A.out(); S.out(); S2.out(); A.show(); S.show(); std::vector<double> p; params(r, p); showv("params", p, p.size()); const auto p0 = p;
  typename I::MH a = mk<T>(r, A), s = mk<T>(r, S), s2 = mk<T>(r, S2); const int how = r.in(0, 2); const bool np = r.p(.15); const double *pp = np ? nullptr : p.data(); hif::Params o = np ? hif::get_default_params() : cpp(p); const Mat<T> *fac = how == 1 ? &A : &S; const bool haveA = how != 2 || S.p[0] == 0; Hif<T> M; typename I::HH h; typename I::MH aa = how == 2 ? nullptr : a, ss = how == 1 ? nullptr : s;
  if (r.p(.5)) h = I::cr(aa, ss, pp); else { h = I::cr(nullptr, nullptr, nullptr); CHECK(h, "Create of an empty instance failed"); stats<T>(h, M); CHECK(I::se(h, aa, ss, pp) == LHF_SUCCESS, "Setup"); } CHECK(h, "Create failed");
  cfac(M, *fac, o); stats<T>(h, M); CHECK(p == p0, "parameters modified"); const Mat<T> *cur = how == 2 ? &S : &A;
  for (int k = r.in(1, 5); k > 0; --k) { const int w = r.in(0, 7); ctx() << "step " << w << "\n";
    if (w == 0) { CHECK(I::rf(h, s2, pp) == LHF_SUCCESS, "Refactorize"); fac = &S2; cfac(M, S2, o); stats<T>(h, M); } else if (w == 1) { CHECK(I::up(h, a) == LHF_SUCCESS, "Update"); cur = &A; }
    else if (w == 2) { Vec<T> b(rvec<T>(r, n)), x(b.v); CHECK(I::so(h, b.p, x.p) == LHF_SUCCESS, "Solve"); b.same("Solve"); hif::Array<T> X(n); M.solve(arr<T>(b.v), X); eq(x.p, X, n, "Solve"); }
    else if (cur->p[0] == 0) apply<T, T>(r, M, *cur, n, [&](LhfOperationType op, const T *b, int ni, const double *be, int rk, T *x, int *st) { return I::ap(h, op, b, ni, be, rk, x, st); }); }
  (void)haveA; A.same("all calls"); S.same("all calls"); S2.same("all calls"); CHECK(I::dm(a) == LHF_SUCCESS && I::dm(s) == LHF_SUCCESS && I::dm(s2) == LHF_SUCCESS && I::de(h) == LHF_SUCCESS, "Destroy"); A.same("Destroy"); S.same("Destroy"); CHECK(!lhfGetErrorMsg(), "a message without a failure");
}
template <class T> static void empty_use(Rng &r, typename Api<T>::HH h, size_t n, bool must, const char *w, bool refine = true) { typedef Api<T> I; Vec<T> b(rvec<T>(r, n)), x(std::vector<T>(n, T(3))); LhfStatus s = I::so(h, b.p, x.p); CHECK(!must || s != LHF_SUCCESS, "%s: Solve succeeded", w); if (s == LHF_HIFIR_ERROR) msg_ok(w); s = I::ap(h, (LhfOperationType)r.in(0, 3), b.p, refine ? r.in(0, 3) : 1, nullptr, LHF_DEFAULT_RANK, x.p, nullptr); CHECK(!must || s != LHF_SUCCESS, "%s: Apply succeeded", w); if (s == LHF_HIFIR_ERROR) msg_ok(w); b.same(w); size_t st[9]; CHECK(I::gs(h, st) == LHF_SUCCESS, "GetStats"); I::gn(h); I::gl(h); I::gr(h); I::gz(h); }
template <class T> static void faulty(Rng &r) {
  typedef Api<T> I; const size_t n = r.in(1, 8); std::vector<double> p; params(r, p); p[LHF_VERBOSE] = 0; size_t st[9]; while (lhfGetErrorMsg()) {} const int k = r.in(0, 10); ctx() << "fault " << k << "\n"; Vec<T> b(rvec<T>(r, n)), x(b.v);
  if (k == 0) { for (auto &z : st) z = 5; CHECK(I::dm(nullptr) == LHF_SUCCESS && I::de(nullptr) == LHF_SUCCESS && I::ms(nullptr) == 0 && I::mn(nullptr) == 0 && I::gn(nullptr) == 0 && I::gl(nullptr) == 0 && I::gz(nullptr) == 0 && I::gr(nullptr) == 0 && I::gs(nullptr, st) == LHF_SUCCESS, "null handle in a query"); for (auto z : st) CHECK(z == 0, "statistics of a null handle");
    Mat<T> A; A.gen(r, n); A.out(); typename I::MH a = mk<T>(r, A); CHECK(I::wm(nullptr, n, A.P, A.I, A.V) == LHF_NULL_OBJ && I::se(nullptr, a, a, p.data()) == LHF_NULL_OBJ && I::up(nullptr, a) == LHF_NULL_OBJ && I::rf(nullptr, a, p.data()) == LHF_NULL_OBJ && I::so(nullptr, b.p, x.p) == LHF_NULL_OBJ && I::ap(nullptr, (LhfOperationType)r.in(0, 3), b.p, r.in(0, 3), nullptr, -1, x.p, nullptr) == LHF_NULL_OBJ && I::rs("nofile", nullptr) == LHF_NULL_OBJ, "null handle"); b.same("null handle");
    CHECK(I::wm(a, r.p(.3) ? 0 : n, r.p(.3) ? nullptr : A.P, nullptr, A.V) == LHF_NULL_OBJ, "wrapping null arrays"); CHECK(I::ms(a) == n && I::mn(a) == A.i.size(), "a refused WrapMatrix changed the handle"); I::dm(a); return; }
  typename I::HH h = I::cr(nullptr, nullptr, r.p(.5) ? p.data() : nullptr); CHECK(h, "Create of an empty instance");
  if (k == 1) { CHECK(I::se(h, nullptr, nullptr, p.data()) == LHF_NULL_OBJ && I::rf(h, nullptr, p.data()) == LHF_NULL_OBJ, "null matrices"); empty_use<T>(r, h, n, true, "empty instance"); }
  else if (k == 2) { typename I::MH u = I::cm(r.p(.5), n, nullptr, nullptr, nullptr); CHECK(u && I::ms(u) == 0 && I::mn(u) == 0, "unset matrix"); const LhfStatus s1 = I::se(h, u, nullptr, p.data()); CHECK(s1 == LHF_NULL_OBJ, "Setup with an unset matrix returned %d", (int)s1); const LhfStatus s2 = I::rf(h, u, p.data()); CHECK(s2 == LHF_NULL_OBJ, "Refactorize with an unset matrix returned %d", (int)s2); empty_use<T>(r, h, n, true, "instance with an unset matrix"); typename I::HH g = I::cr(u, nullptr, p.data()); if (g) empty_use<T>(r, g, n, true, "created with an unset matrix"); I::de(g); I::dm(u); while (lhfGetErrorMsg()) {} }
  else if (k == 10) { Mat<T> A; A.gen(r, n, r.in(0, 3)); if (A.p[0]) { for (auto &q : A.p) --q; for (auto &q : A.i) --q; } if (r.p(.5)) for (auto &v : A.v) if (r.p(.3)) v = r.p(.3) ? T(NAN) : r.p(.3) ? T(INFINITY) : T(0); if (r.p(.2)) for (auto &v : A.v) v = T(0); if (r.p(.3)) { p[LHF_COND] = p[LHF_COND_D] = r.d(1, 1.3); p[LHF_DENSE_THRES] = 1; } A.out(); A.show(); showv("params", p, p.size()); typename I::MH a = I::cm(A.row, n, A.P, A.I, A.V); const LhfStatus s = I::se(h, a, nullptr, p.data()); CHECK(s == LHF_SUCCESS || s == LHF_HIFIR_ERROR, "status"); if (s == LHF_HIFIR_ERROR) msg_ok("degenerate matrix"); empty_use<T>(r, h, n, false, "degenerate matrix"); A.same("degenerate matrix"); I::dm(a); }
  else { Mat<T> A, B; A.gen(r, n); B.gen(r, n); if (B.p[0]) { for (auto &q : B.p) --q; for (auto &q : B.i) --q; } const bool good = k >= 8; int bad = r.in(0, 4); const int b0 = A.p[0] != 0;
    if (k < 8 && A.i.size()) { if (bad == 0) A.i[r.in(0, (int)A.i.size() - 1)] = r.p(.5) ? (LhfInt)n + b0 + r.in(0, 5) : b0 - r.in(1, 9); else if (bad == 1 && n > 1) { A.i.clear(); A.v.clear(); A.p.assign(1, b0); for (size_t q = 0; q < n; ++q) { A.i.push_back(1 + b0); A.i.push_back(0 + b0); A.v.push_back(T(9)); A.v.push_back(T(1)); A.p.push_back(A.p.back() + 2); } } else if (bad == 2) { A.p[0] = r.p(.5) ? 2 + r.in(0, 3) : -1 - r.in(0, 3); } else if (bad == 3 && n > 1) { size_t q = r.in(1, (int)n - 1); A.p[q] = A.p.back() + r.in(1, 4); } else if (bad == 4 && A.i.size() > 1 && n > 1) { A.i.clear(); A.v.clear(); A.p.assign(1, b0); for (size_t q = 0; q < n; ++q) { A.i.push_back(b0); A.i.push_back(b0); A.v.push_back(T(9)); A.v.push_back(T(1)); A.p.push_back(A.p.back() + 2); } } else bad = -1; }
    A.out(); B.out(); A.show(); typename I::MH a = I::cm(A.row, n, A.P, A.I, A.V), bb = I::cm(B.row, n, B.P, B.I, B.V);
    if (good) { Mat<T> L; const size_t n2 = n + r.in(1, 3); L.gen(r, n2); L.out(); typename I::MH l = I::cm(L.row, n2, L.P, L.I, L.V); CHECK(I::se(h, bb, nullptr, p.data()) == LHF_SUCCESS, "Setup"); CHECK(I::up(h, l) == LHF_MISMATCHED_SIZES, "Update with another size"); const LhfStatus s = I::ap(h, r.p(.5) ? LHF_S : LHF_SH, b.p, 3, nullptr, LHF_DEFAULT_RANK, x.p, nullptr); CHECK(s == LHF_MISMATCHED_SIZES, "Apply with mismatched sizes returned %d", (int)s); eq(x.p, x.v, n, "refused Apply"); CHECK(I::up(h, nullptr) == LHF_SUCCESS, "Update with null"); CHECK(I::ap(h, LHF_S, b.p, 3, nullptr, LHF_DEFAULT_RANK, x.p, nullptr) == LHF_NULL_OBJ, "Apply with refinement and no matrix"); L.same("mismatch"); I::dm(l); CHECK(!lhfGetErrorMsg(), "a message without an internal failure"); }
    else if (bad >= 0) { const bool first = r.p(.4); if (!first) { CHECK(I::se(h, bb, nullptr, p.data()) == LHF_SUCCESS, "Setup"); } const bool re = r.p(.5); const LhfStatus s = re ? I::rf(h, a, p.data()) : I::se(h, a, nullptr, p.data()); CHECK(s == LHF_HIFIR_ERROR, "an invalid matrix (kind %d) gave status %d", bad, (int)s); msg_ok("invalid matrix"); empty_use<T>(r, h, n, first, "after a failed factorization", re); A.same("invalid matrix"); b.same("invalid matrix"); CHECK(!I::cr(a, nullptr, p.data()), "Create with an invalid matrix"); msg_ok("Create");
      CHECK(I::se(h, bb, nullptr, p.data()) == LHF_SUCCESS, "Setup after a failure"); Hif<T> M; cfac(M, B, cpp(p)); CHECK(I::so(h, b.p, x.p) == LHF_SUCCESS, "Solve after recovering"); hif::Array<T> X(n); M.solve(arr<T>(b.v), X); eq(x.p, X, n, "Solve after recovering"); }
    B.same("faults"); I::dm(a); I::dm(bb); }
  I::de(h);
}
static void mixed_d(Rng &r) { const size_t n = r.in(1, 10); Mat<float> S; S.gen(r, n); S.out(); Mat<double> A; A.gen(r, n); if (A.p[0]) { for (auto &x : A.p) --x; for (auto &x : A.i) --x; } A.out(); S.show(); A.show(); std::vector<double> p; params(r, p); auto s = mk<float>(r, S); auto a = mk<double>(r, A); auto h = lhfsCreate(s, nullptr, p.data()); CHECK(h, "Create"); Hif<float> M; cfac(M, S, cpp(p)); { Vec<double> b(rvec<double>(r, n)), x(b.v); CHECK(lhfsdApply(h, LHF_S, b.p, 3, nullptr, -2, x.p, nullptr) == LHF_NULL_OBJ, "mixed Apply without a matrix"); CHECK(lhfsdApply(nullptr, LHF_S, b.p, 1, nullptr, -2, x.p, nullptr) == LHF_NULL_OBJ && lhfsdSolve(nullptr, b.p, x.p) == LHF_NULL_OBJ && lhfsdUpdate(nullptr, a) == LHF_NULL_OBJ, "null handle"); CHECK(lhfsdSolve(h, b.p, x.p) == LHF_SUCCESS, "mixed Solve"); b.same("mixed Solve"); hif::Array<double> X(n); M.solve(arr<double>(b.v), X); eq(x.p, X, n, "mixed Solve"); }
  CHECK(lhfsdUpdate(h, a) == LHF_SUCCESS, "mixed Update"); for (int k = 0; k < 3; ++k) apply<float, double>(r, M, A, n, [&](LhfOperationType op, const double *b, int ni, const double *be, int rk, double *x, int *st) { return lhfsdApply(h, op, b, ni, be, rk, x, st); }); lhfsDestroy(h); lhfsDestroyMatrix(s); lhfdDestroyMatrix(a); A.same("mixed"); S.same("mixed"); }
static void mixed_z(Rng &r) { typedef double _Complex D; const size_t n = r.in(1, 10); Mat<C> S; S.gen(r, n); S.out(); Mat<Z> A; A.gen(r, n); if (A.p[0]) { for (auto &x : A.p) --x; for (auto &x : A.i) --x; } A.out(); S.show(); A.show(); std::vector<double> p; params(r, p); auto s = mk<C>(r, S); auto a = mk<Z>(r, A); auto h = lhfcCreate(s, nullptr, p.data()); CHECK(h, "Create"); Hif<C> M; cfac(M, S, cpp(p)); { Vec<Z> b(rvec<Z>(r, n)), x(b.v); CHECK(lhfczApply(h, LHF_S, (D *)b.p, 3, nullptr, -2, (D *)x.p, nullptr) == LHF_NULL_OBJ, "mixed Apply without a matrix"); CHECK(lhfczApply(nullptr, LHF_S, (D *)b.p, 1, nullptr, -2, (D *)x.p, nullptr) == LHF_NULL_OBJ && lhfczSolve(nullptr, (D *)b.p, (D *)x.p) == LHF_NULL_OBJ && lhfczUpdate(nullptr, a) == LHF_NULL_OBJ, "null handle"); CHECK(lhfczSolve(h, (D *)b.p, (D *)x.p) == LHF_SUCCESS, "mixed Solve"); b.same("mixed Solve"); hif::Array<Z> X(n); M.solve(arr<Z>(b.v), X); eq(x.p, X, n, "mixed Solve"); }
  CHECK(lhfczUpdate(h, a) == LHF_SUCCESS, "mixed Update"); for (int k = 0; k < 3; ++k) apply<C, Z>(r, M, A, n, [&](LhfOperationType op, const Z *b, int ni, const double *be, int rk, Z *x, int *st) { return lhfczApply(h, op, (D *)b, ni, be, rk, (D *)x, st); }); lhfcDestroy(h); lhfcDestroyMatrix(s); lhfzDestroyMatrix(a); A.same("mixed"); S.same("mixed"); }
// MatrixMarket entry points: files in a scratch directory of this process
static std::string scratch() { static std::string d; if (d.empty()) { char t[] = "/tmp/natp20.XXXXXX"; d = mkdtemp(t); atexit([] { std::string c = scratch(); unlink((c + "/f").c_str()); rmdir(c.c_str()); }); } return d; }
template <class T> static void wr(std::ostream &o, T v) { o << v; } static void wr(std::ostream &o, Z v) { o << v.real() << ' ' << v.imag(); } static void wr(std::ostream &o, C v) { o << v.real() << ' ' << v.imag(); }
template <class T> static void files(Rng &r) {
  typedef Api<T> I; const bool real = std::is_floating_point<T>::value; const std::string f = scratch() + "/f"; const size_t n = r.in(1, 7); const int k = r.in(0, 3); ctx() << "files " << k << " n " << n << "\n"; int sp = 9, re = 9; size_t nr = 9, nc = 9, nz = 9; while (lhfGetErrorMsg()) {}
  if (k == 0) { Mat<T> A; A.gen(r, n); if (A.p[0]) { for (auto &x : A.p) --x; for (auto &x : A.i) --x; } A.show(); { std::ofstream o(f.c_str()); o << "%%MatrixMarket matrix coordinate " << (real ? "real" : "complex") << " general\n" << n << ' ' << n << ' ' << A.i.size() << '\n'; for (size_t q = 0; q < n; ++q) for (auto e = A.p[q]; e < A.p[q + 1]; ++e) { o << (A.row ? q : A.i[e]) + 1 << ' ' << (A.row ? A.i[e] : q) + 1 << ' '; wr(o, A.v[e]); o << '\n'; } }
    CHECK(lhfQueryMmFile(f.c_str(), &sp, &re, &nr, &nc, &nz) == LHF_SUCCESS && sp == 1 && re == (int)real && nr == n && nc == n && nz == A.i.size(), "query of a sparse file"); Mat<T> B; B.n = n; B.row = A.row; B.p.assign(n + 1, 0); B.i.assign(nz, 0); B.v.assign(nz, T(0)); B.out(); auto b = I::cm(B.row, n, B.P, B.I, B.V); const LhfStatus s = I::rs(f.c_str(), b); CHECK(s == LHF_SUCCESS, "ReadSparse returned %d", (int)s); CHECK(std::equal(A.p.begin(), A.p.end(), B.P) && std::equal(A.i.begin(), A.i.end(), B.I) && std::equal(A.v.begin(), A.v.end(), B.V), "ReadSparse contents"); I::dm(b);
    Mat<T> L; L.gen(r, n + 1); L.out(); auto l = I::cm(L.row, n + 1, L.P, L.I, L.V); CHECK(I::rs(f.c_str(), l) == LHF_MISMATCHED_SIZES, "ReadSparse with another size"); L.same("refused ReadSparse"); I::dm(l); }
  else if (k == 1) { auto v = rvec<T>(r, n); { std::ofstream o(f.c_str()); o << "%%MatrixMarket matrix array " << (real ? "real" : "complex") << " general\n" << n << " 1\n"; for (auto z : v) { wr(o, z); o << '\n'; } } CHECK(lhfQueryMmFile(f.c_str(), &sp, &re, &nr, &nc, &nz) == LHF_SUCCESS && sp == 0 && re == (int)real && nr == n && nz == 0 && nc == 0, "query of a dense file: %zu x %zu, %zu", nr, nc, nz); Vec<T> x(std::vector<T>(n, T(3))); CHECK(I::rv(f.c_str(), n, x.p) == LHF_SUCCESS, "ReadVector"); eq(x.p, v, n, "ReadVector"); Vec<T> y(std::vector<T>(n, T(3))); CHECK(I::rv(f.c_str(), n + 1, y.p) == LHF_MISMATCHED_SIZES && I::rv(f.c_str(), n - 1, y.p) == LHF_MISMATCHED_SIZES, "ReadVector with another size"); y.same("refused ReadVector"); }
  else if (k == 2) { const std::string g = f + ".none"; Vec<T> y(std::vector<T>(n, T(3))); Mat<T> L; L.gen(r, n); L.out(); auto l = I::cm(L.row, n, L.P, L.I, L.V); CHECK(lhfQueryMmFile(g.c_str(), &sp, &re, &nr, &nc, &nz) != LHF_SUCCESS, "query of a missing file"); CHECK(I::rv(g.c_str(), n, y.p) == LHF_HIFIR_ERROR, "ReadVector of a missing file"); msg_ok("missing file"); CHECK(I::rs(g.c_str(), l) == LHF_HIFIR_ERROR, "ReadSparse of a missing file"); msg_ok("missing file"); I::dm(l); y.same("missing file"); L.same("missing file"); }
  else { static const char *heads[] = {"", "nonsense\n", "%%MatrixMarket matrix coordinate integer general\n1 1 1\n1 1 1\n", "%%MatrixMarket matrix foo real general\n1 1 1\n", "%%MatrixMarket vector array real general\n2 1\n1\n2\n", "%%MatrixMarket matrix coordinate real general\n", "%%MatrixMarket matrix array real weird\n1 1\n1\n", "%%MatrixMarket matrix array real\n"}; { std::ofstream o(f.c_str()); o << heads[r.in(0, 7)]; } const LhfStatus s = lhfQueryMmFile(f.c_str(), &sp, &re, &nr, &nc, &nz); CHECK(s == LHF_HIFIR_ERROR, "query of a malformed file returned %d", (int)s); msg_ok("malformed file"); }
}
template <class F> static void sig(Rng &r, F f) { f(r); nontrivial(hash(ctx().str())); }
#define T4(nm, f) {nm " d", [](Rng &r) { sig(r, f<double>); }}, {nm " s", [](Rng &r) { sig(r, f<float>); }}, {nm " z", [](Rng &r) { sig(r, f<Z>); }}, {nm " c", [](Rng &r) { sig(r, f<C>); }}
template <class T> static void nomem(Rng &r) { typedef Api<T> I; ctx() << "creation without memory\n"; std::vector<double> p; params(r, p); Mat<T> A; A.gen(r, r.in(1, 6)); A.out(); A.show(); auto a = mk<T>(r, A); oom = true; auto h = I::cr(r.p(.5) ? a : nullptr, nullptr, r.p(.5) ? p.data() : nullptr); oom = false; CHECK(!h, "Create without memory returned a handle"); A.same("Create without memory"); I::dm(a); h = I::cr(nullptr, nullptr, nullptr); CHECK(h, "Create"); I::de(h); }
int main(int argc, char **argv) { return run(argc, argv, Cases{T4("calls", normal), T4("faults", faulty), T4("files", files), T4("nomem", nomem), {"mixed d", [](Rng &r) { sig(r, mixed_d); }}, {"mixed z", [](Rng &r) { sig(r, mixed_z); }}}); }
