#include "irv.h"
#include "hif/ds/CompressedStorage.hpp"
#include "hif/ds/DenseMatrix.hpp"
#include "hif/small_scale/solver.hpp"
#include "hif/Options.h"
using namespace hif;
typedef Array<double> AD; typedef DenseMatrix<double> DM;
struct Q : QRCP<double> { Q(size_t n, double *a, double *tau, int *jp, size_t rk, double *w, size_t wn) { _mat = DM(n, n, a, true); _tau = AD(n, tau, true); _jpvt = Array<int>(n, jp, true); _rank = rk; } };
struct Y : SYEIG<double> { Y(size_t n, double *a, double *lam, int *ord, size_t rk, double *w, size_t wn) { _mat = DM(n, n, a, true); _w = AD(n, lam, true); _trunc_order = Array<int>(n, ord, true); _rank = rk; _work = AD(wn, w, true); } };
struct U : LUP<double> { U(size_t n, double *a, double *bk, int *ip) { _mat = DM(n, n, a, true); _mat_backup = DM(n, n, bk, true); _ipiv = Array<int>(n, ip, true); } };
#define IN size_t n, double *a, double *tau, int *jp, size_t rk, double *x, size_t r, double *w, size_t wn
extern "C" {
void drv_crs(size_t nr, size_t nc, ptrdiff_t *p, int *ind, double *v) { const CRS<double, int> A(nr, nc, p, ind, v, true); DM D = DM::from_sparse(A); irv_ensure(1, D.nrows(), D.ncols(), D.data(), D.size()); }
void drv_ccs(size_t nr, size_t nc, ptrdiff_t *p, int *ind, double *v) { const CCS<double, int> A(nr, nc, p, ind, v, true); DM D = DM::from_sparse(A); irv_ensure(1, D.nrows(), D.ncols(), D.data(), D.size()); }
void drv_qr_solve(IN) { const Q S(n, a, tau, jp, rk, w, wn); AD X(n, x, true); S.solve(X, r); irv_ensure(1); }
void drv_qr_solve_t(IN) { const Q S(n, a, tau, jp, rk, w, wn); AD X(n, x, true); S.solve(X, r, true); irv_ensure(1); }
void drv_qr_mul(IN) { const Q S(n, a, tau, jp, rk, w, wn); AD X(n, x, true); S.multiply(X, r); irv_ensure(1); }
void drv_qr_mul_t(IN) { const Q S(n, a, tau, jp, rk, w, wn); AD X(n, x, true); S.multiply(X, r, true); irv_ensure(1); }
void drv_sy_solve(IN) { const Y S(n, a, tau, jp, rk, w, wn); AD X(n, x, true); S.solve(X, r); irv_ensure(1); }
void drv_sy_mul(IN) { const Y S(n, a, tau, jp, rk, w, wn); AD X(n, x, true); S.multiply(X, r); irv_ensure(1); }
void drv_lu_solve(IN) { const U S(n, a, tau, jp); AD X(n, x, true); S.solve(X, r, rk); irv_ensure(1); }
void drv_lu_mul(IN) { const U S(n, a, tau, jp); const AD W(n, w, true); AD X(n, x, true); S.multiply(W, X, r, rk); irv_ensure(1); }
}
