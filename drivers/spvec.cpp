#include "irv.h"
#include "stdvec.h"
#include "hif/ds/SparseVec.hpp"
#include "hif/alg/thresholds.hpp"
#include "hif/ds/Array.hpp"
using namespace hif;
struct SV : SparseVector<double, int> {
  void set(size_t d, size_t s, double *v, int *ind, int *dt, bool *stg, size_t cnt) {
    this->_vals.p = v; this->_vals.n = d; this->_inds.p = ind; this->_inds.n = s; this->_dense_tags.p = dt; this->_dense_tags.n = d; this->_sparse_tags.p = stg; this->_sparse_tags.n = s; this->_counts = cnt;
  }
};
#define IN size_t d, size_t sn, double *v, int *ind, int *dt, bool *stg, size_t cnt
#define MK SV x; x.set(d, sn, v, ind, dt, stg, cnt)
extern "C" {
void drv_sv_push(IN, int i, size_t step) { MK; bool r = x.push_back(i, step); irv_ensure(1, (int)r, x.size()); x.reset_counter(); irv_ensure(2, 0, x.size()); }
void drv_sv_restore(IN) { MK; x.restore_cur_state(); irv_ensure(1, x.size()); x.reset_counter(); irv_ensure(2, x.size()); }
void drv_sv_compress(IN) { MK; x.compress_indices(); irv_ensure(1, x.size()); }
void drv_sv_mark(IN, size_t i) { MK; x.mark_delete(i); irv_ensure(1, x.size()); }
void drv_sv_num(IN, double tau, double kappa) { MK; apply_num_dropping(tau, kappa, x); irv_ensure(1, x.size()); }
void drv_sv_space(IN, size_t nnz, double alpha, size_t start) { MK; apply_space_dropping(nnz, alpha, x, start); irv_ensure(1, x.size()); }
void drv_sv_sort(IN) { MK; x.sort_indices(); irv_ensure(1, x.size()); }
void drv_sv_scale(IN, double a) { MK; x.scale(a); irv_ensure(1, x.size()); }
}
