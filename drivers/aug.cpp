#include "irv.h"
#include "hif/ds/AugmentedStorage.hpp"
#include "hif/ds/CompressedStorage.hpp"
using namespace hif;
struct X : internal::AugmentedCore<int> {
  // node arrays of capacity cap holding N nodes, list arrays of length L
  X(size_t L, size_t N, size_t cap, int *ni, ptrdiff_t *st, ptrdiff_t *nx, ptrdiff_t *en, ptrdiff_t *vp, ptrdiff_t *vi, int *ct) {
    this->_node_inds = Array<int>(cap, ni, true); this->_node_start = Array<ptrdiff_t>(L, st, true); this->_node_next = Array<ptrdiff_t>(cap, nx, true); this->_node_end = Array<ptrdiff_t>(L, en, true);
    this->_val_pos = Array<ptrdiff_t>(cap, vp, true); this->_val_pos_inv = Array<ptrdiff_t>(cap, vi, true); this->_node_counts = Array<int>(L, ct, true);
    this->_node_inds.resize(N); this->_node_next.resize(N); this->_val_pos.resize(N); this->_val_pos_inv.resize(N);
  }
  void out() { irv_ensure(1, this->_node_inds.size(), this->_node_start.size(), this->_node_next.size(), this->_node_end.size(), this->_val_pos.size(), this->_val_pos_inv.size(), this->_node_counts.size()); }
  using internal::AugmentedCore<int>::_push_back_nodes; using internal::AugmentedCore<int>::_swap_val_pos_exp; using internal::AugmentedCore<int>::_rotate_val_pos_left; using internal::AugmentedCore<int>::_rotate_val_pos_right;
  using internal::AugmentedCore<int>::_interchange_ik_head_tail;
};
#define IN size_t L, size_t N, size_t cap, int *ni, ptrdiff_t *st, ptrdiff_t *nx, ptrdiff_t *en, ptrdiff_t *vp, ptrdiff_t *vi, int *ct
#define MK X x(L, N, cap, ni, st, nx, en, vp, vi, ct)
extern "C" {
void drv_push(IN, size_t entry, const int *first, size_t n) { MK; x._push_back_nodes(entry, first, first + n); x.out(); }
void drv_begin(IN, size_t entry) { MK; struct Y : X { using X::_begin_assemble_nodes; }; static_cast<Y &>(x)._begin_assemble_nodes(L); x.out(); }
void drv_swap(IN, size_t a, size_t b) { MK; x._swap_val_pos_exp(a, b); x.out(); }
void drv_rotl(IN, size_t n, size_t src) { MK; x._rotate_val_pos_left(n, src); x.out(); }
void drv_rotr(IN, size_t n, size_t src) { MK; x._rotate_val_pos_right(n, src); x.out(); }
void drv_heads(IN, size_t i, size_t k) { MK; x._interchange_ik_head_tail(i, k); x.out(); }
}
