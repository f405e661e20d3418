#include "irv.h"
#include "hif/alg/factor.hpp"
using namespace hif;
typedef CRS<double, int> R; typedef CCS<double, int> C; typedef Array<double> AD; typedef BiPermMatrix<int> BP;
#define OUT(B) B.nrows(), B.ncols(), B.ind_start().data(), B.ind_start().size(), B.inds().data(), B.inds().size(), B.vals().data(), B.vals().size()
#define ARGS size_t n, ptrdiff_t *p, int *ind, double *v, double *s, double *t, size_t m, int *P, int *Pi, int *Q, int *Qi
#define PERM BP PP, QQ; PP() = Array<int>(n, P, true); PP.inv() = Array<int>(n, Pi, true); QQ() = Array<int>(n, Q, true); QQ.inv() = Array<int>(n, Qi, true); const AD S(n, s, true), U(n, t, true);
extern "C" {
void drv_diag(ARGS) { const C A(n, n, p, ind, v, true); PERM AD d = internal::extract_perm_diag(S, A, U, m, PP, QQ); irv_ensure(1, d.data(), d.size()); }
void drv_E(ARGS) { const R A(n, n, p, ind, v, true); PERM C E = internal::extract_E(S, A, U, m, PP, QQ); irv_ensure(1, OUT(E)); }
}
