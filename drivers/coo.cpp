#include <complex>
#include "hif/utils/coo2compress.hpp"
#include "irv.h"
using namespace hif;
extern "C" {
void drv_coo(size_t n, size_t k, size_t nz, int *pi, int *si, double *v) {
  Array<int> P(nz, pi, true), S(nz, si, true); Array<double> V(nz, v, true); Array<long> op; Array<int> oi; Array<double> ov;
  convert_coo2cs(n, k, P, S, V, op, oi, ov);
  irv_ensure(1, op.data(), op.size(), oi.data(), oi.size(), ov.data(), ov.size());
}
}
