#include "irv.h"
#include <array>
#include "hif/ds/CompressedStorage.hpp"
using namespace hif;
typedef std::complex<double> zd;
extern "C" {
#define DRV(NAME, CS, V, CALL)                                              \
  void drv_##NAME(size_t n, ptrdiff_t *p, int *ind, V *v, V *y) {           \
    const CS<V, int> A(n, n, p, ind, v, true);                              \
    Array<V>         yy(n, y, true);                                        \
    A.CALL(yy);                                                             \
    irv_ensure(1);                                                          \
  }
#define DRVM(NAME, CS, V, CALL)                                             \
  void drv_##NAME(size_t n, ptrdiff_t *p, int *ind, V *v, std::array<V, 2> *y) { \
    const CS<V, int>        A(n, n, p, ind, v, true);                       \
    Array<std::array<V, 2>> yy(n, y, true);                                 \
    A.CALL(yy);                                                             \
    irv_ensure(1);                                                          \
  }
#define ALL(CSN, CS)                                                        \
  DRV(d_##CSN##_lower, CS, double, solve_as_strict_lower)                   \
  DRV(d_##CSN##_lower_tran, CS, double, solve_as_strict_lower_tran)         \
  DRV(d_##CSN##_upper, CS, double, solve_as_strict_upper)                   \
  DRV(d_##CSN##_upper_tran, CS, double, solve_as_strict_upper_tran)         \
  DRV(z_##CSN##_lower, CS, zd, solve_as_strict_lower)                       \
  DRV(z_##CSN##_lower_tran, CS, zd, solve_as_strict_lower_tran)             \
  DRV(z_##CSN##_upper, CS, zd, solve_as_strict_upper)                       \
  DRV(z_##CSN##_upper_tran, CS, zd, solve_as_strict_upper_tran)             \
  DRVM(d2_##CSN##_lower, CS, double, solve_as_strict_lower_mrhs)            \
  DRVM(d2_##CSN##_lower_tran, CS, double, solve_as_strict_lower_mrhs_tran)  \
  DRVM(d2_##CSN##_upper, CS, double, solve_as_strict_upper_mrhs)            \
  DRVM(d2_##CSN##_upper_tran, CS, double, solve_as_strict_upper_mrhs_tran)  \
  DRVM(z2_##CSN##_lower, CS, zd, solve_as_strict_lower_mrhs)                \
  DRVM(z2_##CSN##_lower_tran, CS, zd, solve_as_strict_lower_mrhs_tran)      \
  DRVM(z2_##CSN##_upper, CS, zd, solve_as_strict_upper_mrhs)                \
  DRVM(z2_##CSN##_upper_tran, CS, zd, solve_as_strict_upper_mrhs_tran)
ALL(crs, CRS)
ALL(ccs, CCS)
}
