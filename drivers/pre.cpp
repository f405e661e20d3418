#include "irv.h"
#include "stdvec.h"
#include "hif/ds/Array.hpp"
#include "hif/ds/CompressedStorage.hpp"
#include "hif/ds/PermMatrix.hpp"
#include "hif/Options.h"
#include "hif/pre/matching_scaling.hpp"
using namespace hif;
typedef ptrdiff_t ip; typedef CRS<double, int> R; typedef CCS<double, int> C; typedef EqlDriver<double, int, ip> E;
#define MT(X) ip *X##p, size_t X##n, int *X##i, double *X##v
template <class M> static inline void wrap(M &a, size_t n, ip *p, size_t nz, int *i, double *v) { a.ind_start() = Array<ip>(n + 1, p, true); a.inds() = Array<int>(nz, i, true); a.vals() = Array<double>(nz, v, true); }
#define MKR(X) R x##X; x##X.resize(n, n); wrap(x##X, n, X##p, X##n, X##i, X##v)
struct Perm : BiPermMatrix<int> {
  Perm(size_t n, int *f, int *g) : BiPermMatrix<int>(Array<int>(n, f, true)) { Array<int> w(n, g, true); this->_p_inv.swap(w); }
};
extern "C" {
void drv_defer(size_t n, MT(c), MT(r), size_t m0, int *p, int *q, int *wp, int *wq) {
  const C A(n, n, cp, ci, cv, true); const R B(n, n, rp, ri, rv, true); Array<int> P(n, p, true), Q(n, q, true), W(n, wp, true), X(n, wq, true);
  size_t m = internal::defer_tiny_diags<false>(A, B, m0, P, Q, W, X); irv_ensure(1, m);
}
void drv_poor(size_t n, size_t m0, size_t level, int *p, int *q, double *s, double *t, double beta) {
  const Array<int> P(n, p, true), Q(n, q, true); Array<double> S(n, s, true), U(n, t, true); internal::fix_poor_scaling(m0, level, P, Q, S, U, beta); irv_ensure(1);
}
void drv_eye(size_t n, MT(r), double *s, double *t) { MKR(r); Array<double> S(n, s, true), U(n, t, true); scale_eye(xr, S, U); irv_ensure(1); }
void drv_ext(size_t n, MT(r), double *s, double *t) { MKR(r); Array<double> S(n, s, true), U(n, t, true); scale_extreme_values<false>(xr, S, U); irv_ensure(1); }
void drv_exts(size_t n, MT(r), double *s, double *t) { MKR(r); Array<double> S(n, s, true), U(n, t, true); scale_extreme_values<true>(xr, S, U); irv_ensure(1); }
void drv_iter(size_t n, MT(r), double *s, double *t) { MKR(r); Array<double> S(n, s, true), U(n, t, true); iterative_scale<false>(xr, S, U, 1e-10, 5); irv_ensure(1); }
void drv_iters(size_t n, MT(r), double *s, double *t) { MKR(r); Array<double> S(n, s, true), U(n, t, true); iterative_scale<true>(xr, S, U, 1e-10, 5); irv_ensure(1); }
void drv_eql(size_t n, size_t N, MT(r), int *p, int *q, double *s, double *t, int pre) { MKR(r); Array<int> P(N, p, true), Q(N, q, true); Array<double> S(N, s, true), U(N, t, true); E::do_matching<false>(xr, P, Q, S, U, pre, 0); irv_ensure(1); }
void drv_eqls(size_t n, size_t N, MT(r), int *p, int *q, double *s, double *t, int pre) { MKR(r); Array<int> P(N, p, true), Q(N, q, true); Array<double> S(N, s, true), U(N, t, true); E::do_matching<true>(xr, P, Q, S, U, pre, 0); irv_ensure(1); }
void drv_lead(size_t n, MT(c), size_t m, int *p, int *pi, int *q, int *qi) {
  const C A(n, n, cp, ci, cv, true); const R B; Perm P(n, p, pi), Q(n, q, qi);
  C L = internal::compute_leading_block(A, B, m, P, Q, false); irv_ensure(1, L.col_start().data(), L.row_ind().data(), L.row_ind().size(), L.nrows(), L.col_start().size());
}
}
