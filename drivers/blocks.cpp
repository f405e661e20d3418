#include "irv.h"
#include "hif/ds/CompressedStorage.hpp"
using namespace hif;
#define OUT(B) B.nrows(), B.ncols(), B.ind_start().data(), B.ind_start().size(), B.inds().data(), B.inds().size(), B.vals().data(), B.vals().size()
typedef CRS<double, int> R; typedef CCS<double, int> C; typedef Array<ptrdiff_t> AP;
#define ARGS size_t nr, size_t nc, ptrdiff_t *p, int *ind, double *v
#define ARGM size_t nr, size_t nc, ptrdiff_t *p, int *ind, double *v, size_t m
#define ARGS_ ARGM, ptrdiff_t *st
extern "C" {
void drv_split_r1(ARGM) { const R A(nr, nc, p, ind, v, true); R B = A.split<false>(m); irv_ensure(1, OUT(B)); }
void drv_split_r2(ARGM) { const R A(nr, nc, p, ind, v, true); R B = A.split<true>(m); irv_ensure(1, OUT(B)); }
void drv_split_r1s(ARGS_) { const R A(nr, nc, p, ind, v, true); const AP S(nr, st, true); R B = A.split<false>(m, S); irv_ensure(1, OUT(B)); }
void drv_split_r2s(ARGS_) { const R A(nr, nc, p, ind, v, true); const AP S(nr, st, true); R B = A.split<true>(m, S); irv_ensure(1, OUT(B)); }
void drv_split_c1(ARGM) { const C A(nr, nc, p, ind, v, true); C B = A.split<false>(m); irv_ensure(1, OUT(B)); }
void drv_split_c2(ARGM) { const C A(nr, nc, p, ind, v, true); C B = A.split<true>(m); irv_ensure(1, OUT(B)); }
void drv_split_c1s(ARGS_) { const C A(nr, nc, p, ind, v, true); const AP S(nc, st, true); C B = A.split<false>(m, S); irv_ensure(1, OUT(B)); }
void drv_split_c2s(ARGS_) { const C A(nr, nc, p, ind, v, true); const AP S(nc, st, true); C B = A.split<true>(m, S); irv_ensure(1, OUT(B)); }
void drv_dual_r1(ARGM) { const R A(nr, nc, p, ind, v, true); C B = A.split_ccs<false>(m); irv_ensure(1, OUT(B)); }
void drv_dual_r2(ARGM) { const R A(nr, nc, p, ind, v, true); C B = A.split_ccs<true>(m); irv_ensure(1, OUT(B)); }
void drv_dual_r1s(ARGS_) { const R A(nr, nc, p, ind, v, true); const AP S(nr, st, true); C B = A.split_ccs<false>(m, S); irv_ensure(1, OUT(B)); }
void drv_dual_r2s(ARGS_) { const R A(nr, nc, p, ind, v, true); const AP S(nr, st, true); C B = A.split_ccs<true>(m, S); irv_ensure(1, OUT(B)); }
void drv_dual_c1(ARGM) { const C A(nr, nc, p, ind, v, true); R B = A.split_crs<false>(m); irv_ensure(1, OUT(B)); }
void drv_dual_c2(ARGM) { const C A(nr, nc, p, ind, v, true); R B = A.split_crs<true>(m); irv_ensure(1, OUT(B)); }
void drv_dual_c1s(ARGS_) { const C A(nr, nc, p, ind, v, true); const AP S(nc, st, true); R B = A.split_crs<false>(m, S); irv_ensure(1, OUT(B)); }
void drv_dual_c2s(ARGS_) { const C A(nr, nc, p, ind, v, true); const AP S(nc, st, true); R B = A.split_crs<true>(m, S); irv_ensure(1, OUT(B)); }
void drv_lead_r(ARGM) { const R A(nr, nc, p, ind, v, true); R B = A.extract_leading(m); irv_ensure(1, OUT(B)); }
void drv_lead_c(ARGM) { const C A(nr, nc, p, ind, v, true); C B = A.extract_leading(m); irv_ensure(1, OUT(B)); }
void drv_left_r(ARGS, double *s) { R A(nr, nc, p, ind, v, true); const Array<double> S(nr, s, true); A.scale_diag_left(S); irv_ensure(1); }
void drv_right_r(ARGS, double *s) { R A(nr, nc, p, ind, v, true); const Array<double> S(nc, s, true); A.scale_diag_right(S); irv_ensure(1); }
void drv_left_c(ARGS, double *s) { C A(nr, nc, p, ind, v, true); const Array<double> S(nr, s, true); A.scale_diag_left(S); irv_ensure(1); }
void drv_right_c(ARGS, double *s) { C A(nr, nc, p, ind, v, true); const Array<double> S(nc, s, true); A.scale_diag_right(S); irv_ensure(1); }
}
