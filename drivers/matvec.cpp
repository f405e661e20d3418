#include "irv.h"
#include <array>
#include "hif/ds/CompressedStorage.hpp"
#include "hif/utils/mt_mv.hpp"
using namespace hif;
typedef std::complex<double> zd;
extern "C" {
// partial row range, low-level kernel
void drv_crs_nt(size_t m, size_t n, ptrdiff_t *p, int *ind, double *v, double *x, size_t istart, size_t len, double *y) {
  const CRS<double, int> A(m, n, p, ind, v, true);
  A.multiply_nt_low((const double *)x, istart, len, y);
  irv_ensure(1);
}
void drv_crs_mrhs_nt(size_t m, size_t n, ptrdiff_t *p, int *ind, double *v, double *x, size_t istart, size_t len, double *y) {
  const CRS<double, int> A(m, n, p, ind, v, true);
  A.multiply_mrhs_nt_low<2>((const double *)x, istart, len, y);
  irv_ensure(1);
}
#define DRV(NAME, CS, V, CALL, XN, YN)                                                                  \
  void drv_##NAME(size_t m, size_t n, ptrdiff_t *p, int *ind, V *v, V *x, V *y) {                       \
    const CS<V, int> A(m, n, p, ind, v, true);                                                          \
    const Array<V> xx(XN, x, true);                                                                     \
    Array<V>       yy(YN, y, true);                                                                     \
    CALL(xx, yy);                                                                                       \
    irv_ensure(1);                                                                                      \
  }
#define DRVM(NAME, CS, V, CALL, XN, YN)                                                                 \
  void drv_##NAME(size_t m, size_t n, ptrdiff_t *p, int *ind, V *v, std::array<V, 2> *x, std::array<V, 2> *y) { \
    const CS<V, int> A(m, n, p, ind, v, true);                                                          \
    const Array<std::array<V, 2>> xx(XN, x, true);                                                      \
    Array<std::array<V, 2>>       yy(YN, y, true);                                                      \
    CALL(xx, yy);                                                                                       \
    irv_ensure(1);                                                                                      \
  }
#define NT(x, y) A.multiply(x, y, false)
#define TT(x, y) A.multiply(x, y, true)
#define NTM(x, y) A.multiply_mrhs(x, y, false)
#define TTM(x, y) A.multiply_mrhs(x, y, true)
#define MTNT(x, y) mt::multiply_nt(A, x, y)
#define MTNTL(x, y) mt::multiply_nt_low(A, x.data(), y.data())
DRV(d_crs_nt, CRS, double, NT, n, m)
DRV(d_crs_t, CRS, double, TT, m, n)
DRV(d_ccs_nt, CCS, double, NT, n, m)
DRV(d_ccs_t, CCS, double, TT, m, n)
DRV(z_crs_nt, CRS, zd, NT, n, m)
DRV(z_crs_t, CRS, zd, TT, m, n)
DRV(z_ccs_nt, CCS, zd, NT, n, m)
DRV(z_ccs_t, CCS, zd, TT, m, n)
DRVM(d2_crs_nt, CRS, double, NTM, n, m)
DRVM(d2_crs_t, CRS, double, TTM, m, n)
DRVM(d2_ccs_nt, CCS, double, NTM, n, m)
DRVM(d2_ccs_t, CCS, double, TTM, m, n)
DRVM(z2_crs_nt, CRS, zd, NTM, n, m)
DRVM(z2_crs_t, CRS, zd, TTM, m, n)
DRVM(z2_ccs_nt, CCS, zd, NTM, n, m)
DRVM(z2_ccs_t, CCS, zd, TTM, m, n)
#define MTNTM(x, y) mt::multiply_mrhs_nt(A, x, y)
#define MTNTML(x, y) mt::multiply_mrhs_nt_low<2>(A, x[0].data(), y[0].data())
DRV(mt_ccs_nt, CCS, double, MTNT, n, m)
DRV(mt_ccs_nt_low, CCS, double, MTNTL, n, m)
DRVM(mt_ccs_mrhs, CCS, double, MTNTM, n, m)
DRVM(mt_ccs_mrhs_low, CCS, double, MTNTML, n, m)
DRV(mt_crs_nt, CRS, double, MTNT, n, m)
DRV(mt_crs_nt_low, CRS, double, MTNTL, n, m)
DRVM(mt_crs_mrhs, CRS, double, MTNTM, n, m)
DRVM(mt_crs_mrhs_low, CRS, double, MTNTML, n, m)
// partition of rows over threads
void drv_partition(size_t n, int threads, int t, size_t *out) {
  const auto p = mt::uniform_partition(n, threads, t);
  out[0] = p.first; out[1] = p.second;
  const auto q = mt::uniform_partition(n, threads, t + 1);
  out[2] = q.first; out[3] = q.second;
  irv_ensure(1);
}
}
