#include "irv.h"
#include "hif/ds/CompressedStorage.hpp"
#include "hif/small_scale/solver.hpp"
#include "hif/Options.h"
#include "hif/alg/Prec.hpp"
#include "hif/alg/factor.hpp"
#include "hif/alg/symm_factor.hpp"
using namespace hif;
typedef ptrdiff_t ip; typedef CRS<double, int> R; typedef CCS<double, int> C;
#define MT(X) ip *X##p, size_t X##n, int *X##i, double *X##v
template <class M> static inline void wrap(M &a, size_t n, ip *p, size_t nz, int *i, double *v) { a.ind_start() = Array<ip>(n + 1, p, true); a.inds() = Array<int>(nz, i, true); a.vals() = Array<double>(nz, v, true); }
struct QX : QRCP<double> { void set(size_t n, double *a, size_t r) { _mat = DenseMatrix<double>(n, n, a, true); _rank = r; } };
struct YX : SYEIG<double> { void set(size_t n, double *a, size_t r) { _mat = DenseMatrix<double>(n, n, a, true); _rank = r; } };
extern "C" {
void drv_tails(size_t m, size_t n, MT(u), MT(l), ip *us, ip *ls, size_t k, size_t dfrs) {
  R U; U.resize(m, n); wrap(U, m, up, un, ui, uv); C L; L.resize(n, m); wrap(L, m, lp, ln, li, lv); const Array<ip> S(m, us, true), T(m, ls, true);
  internal::compress_tails(U, L, S, T, k, dfrs); irv_ensure(1, U.nrows(), U.ncols(), L.nrows(), L.ncols());
}
void drv_tail(size_t m, size_t n, MT(l), ip *ls, size_t k, size_t dfrs) {
  C L; L.resize(n, m); wrap(L, m, lp, ln, li, lv); const Array<ip> T(m, ls, true);
  internal::compress_tail(L, T, k, dfrs); irv_ensure(1, L.nrows(), L.ncols());
}
void drv_counts(size_t m, size_t n, MT(l), MT(u), MT(e), MT(f), size_t ds, double *da, size_t dr, size_t ss, double *sa, size_t sr) {
  Prec<double, int> P; P.m = m; P.n = n;
  if (m) { wrap(P.L_B, m, lp, ln, li, lv); wrap(P.U_B, m, up, un, ui, uv); }
  if (n - m) { wrap(P.E, m, ep, en, ei, ev); wrap(P.F, n - m, fp, fn, fi, fv); }
  if (ds) static_cast<QX &>(P.dense_solver).set(ds, da, dr);
  if (ss) static_cast<YX &>(P.symm_dense_solver).set(ss, sa, sr);
  irv_ensure(1, P.nnz(), P.nnz_ef(), P.last_rank(), P.is_last_level());
}
}
