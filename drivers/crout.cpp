#include "irv.h"
#include "stdvec.h"
#include "hif/ds/CompressedStorage.hpp"
#include "hif/ds/SparseVec.hpp"
#include "hif/ds/PermMatrix.hpp"
#include "hif/alg/Crout.hpp"
using namespace hif;
typedef ptrdiff_t ip;
struct CK : Crout { void set(size_t s, size_t d) { this->_step = s; this->_defers = d; } };
struct SV : SparseVector<double, int> {
  void set(size_t d, size_t s, double *v, int *ind, int *dt, bool *stg, size_t cnt) {
    this->_vals.p = v; this->_vals.n = d; this->_inds.p = ind; this->_inds.n = s; this->_dense_tags.p = dt; this->_dense_tags.n = d; this->_sparse_tags.p = stg; this->_sparse_tags.n = s; this->_counts = cnt;
  }
};
template <class M> static inline void wrap(M &a, size_t n, ip *p, size_t nz, int *i, double *v) { a.ind_start() = Array<ip>(n + 1, p, true); a.inds() = Array<int>(nz, i, true); a.vals() = Array<double>(nz, v, true); }
#define MT(X) ip *X##p, size_t X##n, int *X##i, double *X##v
#define VEC(X) double *X##w, int *X##x, int *X##t, bool *X##g, size_t X##c
#define HEAD size_t n, size_t m, size_t N, size_t step, size_t def
#define MKV(X) SV x##X; x##X.set(N, N, X##w, X##x, X##t, X##g, X##c)
#define OUT(X) x##X.vals().data(), x##X.size()
extern "C" {
void drv_ut(HEAD, MT(a), double *s, double *t, size_t pk, int *qi, MT(l), ip *ls, int *ll, double *d, MT(u), ip *us, VEC(y)) {
  CK c; c.set(step, def); const CRS<double, int> A(n, n, ap, ai, av, true); CRS<double, int> U; CCS<double, int> L; wrap(U, m, up, un, ui, uv); wrap(L, m, lp, ln, li, lv); MKV(y);
  const Array<double> S(n, s, true), T(n, t, true), D(m, d, true); const Array<int> Q(n, qi, true), LL(N, ll, true); const Array<ip> LS(m, ls, true), US(m, us, true);
  c.compute_ut(S, A, T, pk, Q, L, LS, LL, D, U, US, xy); irv_ensure(1);
}
#define DRVL(NM, SY) void NM(HEAD, MT(a), double *s, double *t, size_t pk, int *qi, MT(l), ip *ls, int *ll, double *d, MT(u), ip *us, VEC(y), size_t m2) { \
  CK c; c.set(step, def); const CCS<double, int> A(n, n, ap, ai, av, true); CRS<double, int> U; CCS<double, int> L; wrap(U, m, lp, ln, li, lv); wrap(L, m, up, un, ui, uv); MKV(y); \
  const Array<double> S(n, s, true), T(n, t, true), D(m, d, true); const Array<int> P(n, qi, true), UL(N, ll, true); const Array<ip> US(m, ls, true), LS(m, us, true); \
  c.compute_l<SY>(S, A, T, P, pk, m2, L, LS, D, U, US, UL, xy); irv_ensure(1); }
DRVL(drv_l, false)
DRVL(drv_ls, true)
void drv_symm(HEAD, MT(a), double *s, double *t, size_t pk, int *qi, MT(l), ip *ls, int *ll, double *d, VEC(y), size_t m2) {
  CK c; c.set(step, def); const CCS<double, int> A(n, n, ap, ai, av, true); CCS<double, int> L; wrap(L, m, lp, ln, li, lv); MKV(y);
  const Array<double> S(n, s, true), T(n, t, true), D(m, d, true); const Array<int> P(n, qi, true), LL(N, ll, true); const Array<ip> LS(m, ls, true);
  c.compute_symm(S, A, T, P, pk, m2, L, LS, LL, D, xy); irv_ensure(1);
}
void drv_scale(HEAD, double *d, VEC(y)) { CK c; c.set(step, def); const Array<double> D(m, d, true); MKV(y); bool r = c.scale_inv_diag(D, xy); irv_ensure(1, (int)r, xy.size()); }
void drv_diag(HEAD, double *d, VEC(y), VEC(z), size_t m2) { CK c; c.set(step, def); Array<double> D(m, d, true); MKV(y); MKV(z); c.update_diag<false>(xz, xy, m2, D); irv_ensure(1); }
void drv_diags(HEAD, double *d, VEC(y), VEC(z), size_t m2) { CK c; c.set(step, def); Array<double> D(m, d, true); MKV(y); MKV(z); c.update_diag<true>(xz, xy, m2, D); irv_ensure(1); }
void drv_kappa(HEAD, MT(l), ip *ls, int *ll, double *k) { CK c; c.set(step, def); CCS<double, int> L; wrap(L, m, lp, ln, li, lv); const Array<int> LL(N, ll, true); const Array<ip> LS(m, ls, true); Array<double> K(m, k, true); bool r = c.update_kappa(L, LL, LS, K); irv_ensure(1, (int)r); }
void drv_lstart(HEAD, MT(l), ip *ls, size_t m2) { CK c; c.set(step, def); CCS<double, int> L; wrap(L, m, lp, ln, li, lv); Array<ip> LS(m, ls, true); c.symm_update_lstart(L, m2, LS); irv_ensure(1); }
void drv_compress(HEAD, MT(l), ip *ls, int *ll) { CK c; c.set(step, def); CCS<double, int> L; wrap(L, m, lp, ln, li, lv); Array<int> LL(N, ll, true); Array<ip> LS(m, ls, true); c.update_compress(L, LL, LS); irv_ensure(1); }
void drv_defer(HEAD, MT(l), ip *ls, int *ll, size_t to) { CK c; c.set(step, def); CCS<double, int> L; wrap(L, m, lp, ln, li, lv); Array<int> LL(N, ll, true); const Array<ip> LS(m, ls, true); c.defer_entry(to, LS, L, LL); irv_ensure(1); }
void drv_sdefer(HEAD, MT(l), ip *ls, int *ll, size_t to, ip *lo) { CK c; c.set(step, def); CCS<double, int> L; wrap(L, m, lp, ln, li, lv); Array<int> LL(N, ll, true); const Array<ip> LS(m, ls, true); Array<ip> LO(m, lo, true); c.symm_defer_l(to, LS, L, LL, LO); irv_ensure(1); }
}
