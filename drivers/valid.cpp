#include "irv.h"
#include "hif/ds/CompressedStorage.hpp"
using namespace hif;
struct MR : CRS<double, int> {
  void set(size_t m, size_t n, ptrdiff_t *p, size_t np, int *ind, size_t ni, double *v, size_t nv) {
    this->_psize = m; this->_ncols = n; this->_ind_start = Array<ptrdiff_t>(np, p, true); this->_indices = Array<int>(ni, ind, true); this->_vals = Array<double>(nv, v, true);
  }
};
struct MC : CCS<double, int> {
  void set(size_t m, size_t n, ptrdiff_t *p, size_t np, int *ind, size_t ni, double *v, size_t nv) {
    this->_psize = m; this->_nrows = n; this->_ind_start = Array<ptrdiff_t>(np, p, true); this->_indices = Array<int>(ni, ind, true); this->_vals = Array<double>(nv, v, true);
  }
};
extern "C" {
void drv_valid_crs(size_t m, size_t n, ptrdiff_t *p, size_t np, int *ind, size_t ni, double *v, size_t nv) { MR A; A.set(m, n, p, np, ind, ni, v, nv); const CRS<double, int> &B = A; B.check_validity(); irv_ensure(1); }
void drv_valid_ccs(size_t m, size_t n, ptrdiff_t *p, size_t np, int *ind, size_t ni, double *v, size_t nv) { MC A; A.set(m, n, p, np, ind, ni, v, nv); const CCS<double, int> &B = A; B.check_validity(); irv_ensure(1); }
void drv_wrap_crs(size_t m, size_t n, const ptrdiff_t *p, const int *ind, const double *v) { CRS<double, int> A(wrap_const_crs(m, n, p, ind, v, true)); irv_ensure(2, A.nrows(), A.ncols(), A.row_start().data(), A.row_start().size(), A.col_ind().data(), A.col_ind().size(), A.vals().data(), A.vals().size()); }
void drv_wrap_ccs(size_t m, size_t n, const ptrdiff_t *p, const int *ind, const double *v) { CCS<double, int> A(wrap_const_ccs(n, m, p, ind, v, true)); irv_ensure(2, A.ncols(), A.nrows(), A.col_start().data(), A.col_start().size(), A.row_ind().data(), A.row_ind().size(), A.vals().data(), A.vals().size()); }
}
