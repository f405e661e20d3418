#include "irv.h"
#include "hif/ds/Array.hpp"
#include "hif/ds/CompressedStorage.hpp"
#include "hif/utils/common.hpp"
#include "hif/utils/math.hpp"
// operators of one level and the next level, represented by their contracts (hooks the verifier interprets).
// op(role, kind, argument, result, call number): role 0 L, 1 U, 2 E, 3 F; kind 0 triangular solve, 1 its transposed, 2 product, 3 transposed product
extern "C" void irv_havoc_op(int role, int kind, const double *x, double *y, long nth);
extern "C" void irv_havoc_dense(int symm, int multiply, const double *x, size_t n, size_t last_dim, bool tran);
extern "C" void irv_havoc_rec(int which, const double *b, size_t bn, size_t last_dim, const double *y, size_t yn, const double *work);
namespace hif {
static inline double *dp(double *p) { return p; }
static inline double *dp(Array<double> &a) { return a.data(); }
template <size_t N> static inline double *dp(Array<std::array<double, N>> &a) { return (double *)a.data(); }
struct FOp { typedef size_t size_type;
  int role; size_t nr, nc; long *cnt;
  size_t nrows() const { return nr; } size_t ncols() const { return nc; }
  template <class X> void solve_as_strict_lower(X &y) const { irv_havoc_op(role, 0, dp(y), dp(y), ++*cnt); }
  template <class X> void solve_as_strict_upper(X &y) const { irv_havoc_op(role, 0, dp(y), dp(y), ++*cnt); }
  template <class X> void solve_as_strict_lower_mrhs(X &y) const { irv_havoc_op(role, 0, dp(y), dp(y), ++*cnt); }
  template <class X> void solve_as_strict_upper_mrhs(X &y) const { irv_havoc_op(role, 0, dp(y), dp(y), ++*cnt); }
  template <class X> void solve_as_strict_lower_tran(X &y) const { irv_havoc_op(role, 1, dp(y), dp(y), ++*cnt); }
  template <class X> void solve_as_strict_upper_tran(X &y) const { irv_havoc_op(role, 1, dp(y), dp(y), ++*cnt); }
  void multiply_nt_low(const double *x, double *y) const { irv_havoc_op(role, 2, x, y, 0); }
  void multiply_t_low(const double *x, double *y) const { irv_havoc_op(role, 3, x, y, 0); }
  template <size_t N> void multiply_mrhs_nt_low(const double *x, double *y) const { irv_havoc_op(role, 2, x, y, 0); }
};
struct FDense { bool e, symm; bool empty() const { return e; }
  template <class X> void solve(X &x, size_t r, bool tran = false) const { irv_havoc_dense(symm, 0, x.data(), x.size(), r, tran); }
  template <class X> void solve_mrhs(X &x, size_t r, bool tran = false) const { irv_havoc_dense(symm, 0, (const double *)x.data(), x.size(), r, tran); }
  template <class X> void multiply(X &x, size_t r, bool tran = false) const { irv_havoc_dense(symm, 1, x.data(), x.size(), r, tran); } };
struct FPrec { typedef size_t size_type; size_t m, n; FOp L_B, U_B, E, F; Array<double> d_B, s, t; Array<int> p, p_inv, q, q_inv; FDense dense_solver, symm_dense_solver;
  bool is_last_level() const { return !dense_solver.empty() || !symm_dense_solver.empty() || m == n; } };      // Prec::is_last_level
struct FIt { FPrec *p; const FPrec &operator*() const { return *p; } };
struct FTop { typedef FPrec value_type; typedef ptrdiff_t difference_type; typedef FPrec *pointer; typedef FPrec &reference; typedef std::forward_iterator_tag iterator_category;
  FPrec *p; const FPrec &operator*() const { return *p; } FIt operator++() { FIt i; i.p = p; return i; } };
template <class B, class Y, class W> inline void prec_solve(FIt, const B &b, const std::size_t r, Y &y, W &work) { irv_havoc_rec(0, b.data(), b.size(), r, y.data(), y.size(), dp(work)); }
template <class B, class Y, class W> inline void prec_solve_tran(FIt, const B &b, const std::size_t r, Y &y, W &work) { irv_havoc_rec(1, b.data(), b.size(), r, y.data(), y.size(), dp(work)); }
template <class B, class Y, class W> inline void prec_prod(FIt, const B &b, const std::size_t r, Y &y, W &work) { irv_havoc_rec(2, b.data(), b.size(), r, y.data(), y.size(), dp(work)); }
template <class B, class Y, class W> inline void prec_prod_tran(FIt, const B &b, const std::size_t r, Y &y, W &work) { irv_havoc_rec(3, b.data(), b.size(), r, y.data(), y.size(), dp(work)); }
template <class R, class S, class W, std::size_t N> inline void prec_solve_mrhs(FIt, const Array<std::array<R, N>> &b, const std::size_t r, Array<std::array<S, N>> &y, Array<std::array<W, N>> &work) { irv_havoc_rec(4, (const double *)b.data(), b.size(), r, (const double *)y.data(), y.size(), dp(work)); }
}
#include "hif/alg/prec_solve.hpp"
#include "hif/alg/prec_prod.hpp"
using namespace hif;
#define IN size_t m, size_t n, double *b, double *y, double *work, size_t wl, double *d, double *s, double *t, int *p, int *pi, int *q, int *qi, bool de, bool se, size_t r
#define MK long cl = 0, cu = 0; FPrec P; P.m = m; P.n = n; P.L_B.role = 0; P.L_B.nr = P.L_B.nc = m; P.L_B.cnt = &cl; P.U_B.role = 1; P.U_B.nr = P.U_B.nc = m; P.U_B.cnt = &cu; \
  P.E.role = 2; P.E.nr = n - m; P.E.nc = m; P.E.cnt = 0; P.F.role = 3; P.F.nr = m; P.F.nc = n - m; P.F.cnt = 0; P.d_B = Array<double>(m, d, true); P.s = Array<double>(n, s, true); P.t = Array<double>(n, t, true); \
  P.p = Array<int>(n, p, true); P.p_inv = Array<int>(n, pi, true); P.q = Array<int>(n, q, true); P.q_inv = Array<int>(n, qi, true); P.dense_solver.e = de; P.dense_solver.symm = false; P.symm_dense_solver.e = se; P.symm_dense_solver.symm = true; FTop it; it.p = &P
extern "C" {
void drv_solve(IN) { MK; const Array<double> B(n, b, true); Array<double> Y(n, y, true), W(wl, work, true); prec_solve(it, B, r, Y, W); irv_ensure(1, cl, cu); }
void drv_solve_tran(IN) { MK; const Array<double> B(n, b, true); Array<double> Y(n, y, true), W(wl, work, true); prec_solve_tran(it, B, r, Y, W); irv_ensure(1, cl, cu); }
void drv_prod(IN) { MK; const Array<double> B(n, b, true); Array<double> Y(n, y, true), W(wl, work, true); prec_prod(it, B, r, Y, W); irv_ensure(1, cl, cu); }
void drv_prod_tran(IN) { MK; const Array<double> B(n, b, true); Array<double> Y(n, y, true), W(wl, work, true); prec_prod_tran(it, B, r, Y, W); irv_ensure(1, cl, cu); }
typedef std::array<double, 2> A2;
void drv_solve_mrhs(IN) { MK; const Array<A2> B(n, (A2 *)b, true); Array<A2> Y(n, (A2 *)y, true), W(wl, (A2 *)work, true); prec_solve_mrhs(it, B, r, Y, W); irv_ensure(1, cl, cu); }
}
