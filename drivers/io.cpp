#include <complex>
#include "hif/ds/CompressedStorage.hpp"
#include "hif/utils/io.hpp"
#include "irv.h"
using namespace hif;
typedef std::complex<double> Z;
#define SP(T, R, V) void drv_sp_##T##R(std::FILE *f, size_t m, size_t n, size_t nnz) { Array<int> r, c; Array<V> v; internal::mm_read_sparse_data<T, R>(f, m, n, nnz, r, c, v); irv_ensure(1, r.data(), r.size(), c.data(), c.size(), v.data(), v.size()); }
extern "C" {
SP(0, 1, double) SP(1, 1, double) SP(2, 1, double) SP(3, 1, double)
SP(0, 0, Z) SP(1, 0, Z) SP(2, 0, Z) SP(3, 0, Z)
void drv_vec_1(std::FILE *f, size_t n) { Array<double> v; internal::mm_read_vector_data<true>(f, n, v); irv_ensure(1, v.data(), v.size()); }
void drv_vec_0(std::FILE *f, size_t n) { Array<Z> v; internal::mm_read_vector_data<false>(f, n, v); irv_ensure(1, v.data(), v.size()); }
void drv_ssize(std::FILE *f, size_t *m, size_t *n, size_t *k) { internal::mm_read_sparse_size(f, *m, *n, *k); irv_ensure(1, *m, *n, *k); }
void drv_dsize(std::FILE *f, size_t *m, size_t *n) { internal::mm_read_dense_size(f, *m, *n); irv_ensure(1, *m, *n); }
}
extern "C" {
#define RD(nm, V) void drv_rd_##nm(const char *fn, size_t *m, size_t *n) { Array<int> r, c; Array<V> v; read_mm_sparse(fn, *m, *n, r, c, v); irv_ensure(1, *m, *n, r.data(), r.size(), c.data(), c.size(), v.data(), v.size()); } \
  void drv_rv_##nm(const char *fn) { Array<V> v; read_mm_vector(fn, v); irv_ensure(1, v.data(), v.size()); }
RD(d, double) RD(z, Z)
#define WR(nm, V) \
  void drv_wv_##nm(const char *fn, size_t n, V *x) { Array<V> v(n, x, true); write_mm_vector(fn, v); irv_ensure(1); } \
  void drv_wr_##nm(const char *fn, size_t m, size_t n, long *p, size_t k, int *i, V *x) { Array<long> P(m + 1, p, true); Array<int> J(k, i, true); Array<V> X(k, x, true); write_mm_sparse<true>(fn, n, P, J, X); irv_ensure(1); } \
  void drv_wc_##nm(const char *fn, size_t m, size_t n, long *p, size_t k, int *i, V *x) { Array<long> P(n + 1, p, true); Array<int> J(k, i, true); Array<V> X(k, x, true); write_mm_sparse<false>(fn, m, P, J, X); irv_ensure(1); }
WR(d, double) WR(z, Z) WR(f, float)
}
