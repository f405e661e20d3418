#include "irv.h"
#include "hif/ds/Array.hpp"
using namespace hif;
typedef Array<double> A;
// an owning array of n elements and capacity c; contents supplied by irv_havoc (tag tells the verifier which ghost copy)
#define OWN(a, n, c) A a(c); irv_havoc(a.data()); a.resize(n)
#define ST(a) a.data(), a.size(), a.capacity(), (int)a.status(), (int)a.empty()
extern "C" {
void drv_resize(size_t n, size_t c, size_t n2, bool presv) { OWN(a, n, c); a.resize(n2, presv); irv_ensure(1, ST(a)); a.resize(0); irv_ensure(2, ST(a)); }
void drv_resize_shared(size_t n, size_t c, size_t n2) {
  OWN(a, n, c);
  { A b(a); a.resize(n2); irv_ensure(1, ST(a), ST(b)); }
  irv_ensure(2, ST(a));
}
void drv_resize_empty(size_t n) { A a; a.resize(n); irv_ensure(1, ST(a)); }
void drv_reserve(size_t n, size_t c, size_t c2) { OWN(a, n, c); a.reserve(c2); irv_ensure(1, ST(a)); a.resize(n); irv_ensure(2, ST(a)); }
void drv_push(size_t n, size_t c, double v) { OWN(a, n, c); a.push_back(v); irv_ensure(1, ST(a)); }
void drv_push_range(size_t n, size_t c, const double *x, size_t k) { OWN(a, n, c); a.push_back(x, x + k); irv_ensure(1, ST(a)); }
void drv_push_n(size_t n, size_t c, const double *x, size_t k) { OWN(a, n, c); a.push_back_n(x, k); irv_ensure(1, ST(a)); }
void drv_ctor_copy(const double *x, size_t n) { A a(n, const_cast<double *>(x)); irv_ensure(1, ST(a)); }
void drv_ctor_wrap(double *x, size_t n) {
  { A a(n, x, true); irv_ensure(1, ST(a)); A b(a); irv_ensure(2, ST(b)); A c; c = b; A d(std::move(b)); irv_ensure(3, ST(c)); }
  A e(wrap_array(n, x)); irv_ensure(4, ST(e)); A f(wrap_const_array(n, (const double *)x)); irv_ensure(5, ST(f)); A g(f, true); irv_ensure(6, ST(g));
}
void drv_ctor_fill(size_t n, double v) { A a(n, v); irv_ensure(1, ST(a)); }
void drv_convert(size_t n, size_t c) { Array<float> a(c); irv_havoc(a.data()); a.resize(n); A b(a); irv_ensure(1, ST(b)); }
void drv_copy(size_t n, size_t c, bool deep) {
  OWN(a, n, c);
  if (deep) { A b(a, true); irv_ensure(1, ST(a), ST(b)); }
  else { A b(a); irv_ensure(2, ST(a), ST(b)); A d(b); irv_ensure(2, ST(a), ST(d)); }
  irv_ensure(3, ST(a));
}
void drv_assign(size_t n, size_t c, size_t n2, size_t c2) {
  OWN(a, n, c);
  { OWN(b, n2, c2); a = b; irv_ensure(1, ST(a), ST(b)); }
  irv_ensure(2, ST(a));
  A &r = a; a = r; irv_ensure(2, ST(a));
}
void drv_assign_stale(size_t n, size_t c, size_t n2) { OWN(a, n, c); A b(a); b.resize(n2); a = b; irv_ensure(1, ST(a), ST(b)); }
void drv_move(size_t n, size_t c, size_t n2, size_t c2, size_t n3) {
  OWN(b, n2, c2);
  A d(std::move(b)); irv_ensure(1, ST(d), ST(b));
  OWN(a, n, c);
  a = std::move(d); irv_ensure(1, ST(a), ST(d));
  A e(d), f; f = d; irv_ensure(2, ST(e)); irv_ensure(2, ST(f));
  d.resize(n3); irv_ensure(3, ST(d)); e.resize(n3); irv_ensure(3, ST(e)); 
  b = a; irv_ensure(1, ST(a), ST(f));
  irv_ensure(1, ST(b), ST(f));
}
void drv_swap(size_t n, size_t c, size_t n2, double *w) {
  OWN(a, n, c); A b(n2, w, true);
  a.swap(b); irv_ensure(1, ST(a), ST(b));
  a = std::move(b); irv_ensure(2, ST(a));
}
void drv_assign_wrap(size_t n, size_t c, size_t n2, double *w) {
  OWN(a, n, c); A b(n2, w, true); a = b; irv_ensure(1, ST(a)); A d(n, w, true); d = A(c, 1.); irv_ensure(2, ST(d));
}
void drv_steal(size_t n, size_t c, size_t n2) {
  double *p; size_t s, k;
  { OWN(a, n, c); steal_array_ownership(a, p, s, k); irv_ensure(1, p, s, k, ST(a)); a.resize(n2); irv_ensure(2, ST(a)); }
  irv_ensure(3, p, s, k);
  delete[] p;
  double *q; { double z[1]; A w(1, z, true); steal_array_ownership(w, q, s, k); irv_ensure(4, q, s, k, w.data()); }
}
}
