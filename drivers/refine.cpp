#include "irv.h"
#include "hif/ds/Array.hpp"
#include "hif/ds/CompressedStorage.hpp"
#include "hif/utils/mt_mv.hpp"
#include "hif/utils/mv_helper.hpp"
#include "hif/utils/math.hpp"
// the operators of the iteration, represented by their contracts (calls to hooks the verifier interprets)
extern "C" void irv_havoc_solve(const double *b, size_t bn, double *x, size_t xn, bool tran, size_t r, ptrdiff_t *cnt);
extern "C" void irv_havoc_mult(const double *x, size_t xn, double *y, size_t yn, bool tran, ptrdiff_t *cnt);
extern "C" double irv_havoc_norm(const double *x, size_t n);
namespace hif {
struct FakeA { ptrdiff_t *cnt; };
namespace mt { inline void multiply_nt(const FakeA &A, const Array<double> &x, Array<double> &y) { irv_havoc_mult(x.data(), x.size(), y.data(), y.size(), false, A.cnt); } }
inline void multiply(const FakeA &A, const Array<double> &x, Array<double> &y, const bool tran) { irv_havoc_mult(x.data(), x.size(), y.data(), y.size(), tran, A.cnt); }
struct FakeM { size_t n; ptrdiff_t *cnt; size_t ncols() const { return n; } size_t nrows() const { return n; }
  void solve(const Array<double> &b, Array<double> &x, bool tran, size_t r) const { irv_havoc_solve(b.data(), b.size(), x.data(), x.size(), tran, r, cnt); ++*cnt; } };
#ifdef REFINE_NORM
inline double norm2(const Array<double> &v) { return irv_havoc_norm(v.data(), v.size()); }
#endif
}
#include "hif/alg/IterRefine.hpp"
using namespace hif;
struct IR : IterRefine<double> { IR(size_t k, double *p, double *q) { this->_xk = Array<double>(k, p, true); this->_r = Array<double>(k, q, true); } };
#define IN size_t n, double *b, double *xx, ptrdiff_t *cnt, size_t N, bool tran, size_t r, size_t k, double *p, double *q
#define MK const Array<double> B(n, b, true); Array<double> x(n, xx, true); FakeM M; M.n = n; M.cnt = cnt; FakeA A; A.cnt = cnt; IR ir(k, p, q)
extern "C" {
#ifndef REFINE_NORM
void drv_refine(IN) { MK; ir.iter_refine(M, A, B, N, x, r, tran); irv_ensure(1, x.data(), x.size()); }
void drv_norm2(size_t n, double *v) { const Array<double> V(n, v, true); irv_ensure(1, norm2(V)); }
#else
void drv_refine_b(IN, const double *betas) { MK; std::pair<size_t, int> z = ir.iter_refine(M, A, B, N, betas, x, r, tran); irv_ensure(2, x.data(), x.size(), z.first, z.second); }
#endif
}
