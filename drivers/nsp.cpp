#include "irv.h"
#include "hif/NspFilter.hpp"
using namespace hif;
extern "C" {
// range given to the constructor; filtered twice (idempotence)
void drv_filter(size_t a, size_t e, size_t n, double *x) {
  NspFilter f(a, e);
  f.filter(x, n);
  irv_ensure(1);
  f.filter(x, n);
  irv_ensure(2);
}
// range set afterwards
void drv_filter_set(size_t a, size_t e, size_t n, double *x) {
  NspFilter f;
  f.set_nsp_const(a, e);
  f.filter(x, n);
  irv_ensure(1);
  f.filter(x, n);
  irv_ensure(2);
}
// default: whole vector
void drv_filter_default(size_t n, double *x) {
  NspFilter f;
  f.filter(x, n);
  irv_ensure(1);
  f.filter(x, n);
  irv_ensure(2);
}
}
