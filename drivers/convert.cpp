#include "irv.h"
#include "hif/ds/CompressedStorage.hpp"
#include "hif/utils/coo2compress.hpp"
using namespace hif;
#define OUT(B, ip, ix) B.nrows(), B.ncols(), B.ip().data(), B.ip().size(), B.ix().data(), B.ix().size(), B.vals().data(), B.vals().size()
extern "C" {
void drv_convert(ptrdiff_t *p, size_t np, int *ind, double *v, size_t nz, ptrdiff_t *op, size_t onp, int *oind, double *ov) {
  const Array<ptrdiff_t> P(np, p, true); const Array<int> X(nz, ind, true); const Array<double> V(nz, v, true);
  Array<ptrdiff_t> oP(onp, op, true); Array<int> oX(nz, oind, true); Array<double> oV(nz, ov, true);
  internal::convert_storage<Array<double>, Array<int>, Array<ptrdiff_t>>(P, X, V, oP, oX, oV);
  irv_ensure(1);
}
void drv_ccs2crs(size_t m, size_t n, ptrdiff_t *p, int *ind, double *v) { const CCS<double, int> A(m, n, p, ind, v, true); CRS<double, int> B(A); irv_ensure(2, OUT(B, row_start, col_ind)); }
void drv_crs2ccs(size_t m, size_t n, ptrdiff_t *p, int *ind, double *v) { const CRS<double, int> A(m, n, p, ind, v, true); CCS<double, int> B(A); irv_ensure(2, OUT(B, col_start, row_ind)); }
void drv_coo(size_t np, size_t ns, int *pi, int *si, double *v, size_t nz) {
  const Array<int> a(nz, pi, true), b(nz, si, true); const Array<double> c(nz, v, true); Array<ptrdiff_t> P; Array<int> X; Array<double> V;
  convert_coo2cs<ptrdiff_t, int, double>(np, ns, a, b, c, P, X, V);
  irv_ensure(3, np, ns, P.data(), P.size(), X.data(), X.size(), V.data(), V.size());
}
}
