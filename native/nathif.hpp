// helpers that need the library's matrix types
#pragma once
#include "nat.hpp"
#include <array>
#ifndef HIF_THROW
#define HIF_THROW
#endif
#define HIF_LOG_PLAIN_PREFIX 1
#include "hif/ds/CompressedStorage.hpp"
#include "hif/ds/Array.hpp"
namespace nat {
template <class M> inline M to_hif(const Dense<typename M::value_type> &d, Rng *shuffle = nullptr) {
  typedef typename M::value_type T;
  auto c = comp_of<typename M::indptr_type, typename M::index_type, T>(d, M::ROW_MAJOR, shuffle);
  M A(d.m, d.n, c.i.size());
  A.ind_start().resize(c.p.size()); A.inds().resize(c.i.size()); A.vals().resize(c.i.size());
  std::copy(c.p.begin(), c.p.end(), A.ind_start().begin()); std::copy(c.i.begin(), c.i.end(), A.inds().begin()); std::copy(c.v.begin(), c.v.end(), A.vals().begin());
  return A;
}
// dense view; contract on the structure: start array monotone from 0 to nnz, indices in range, no duplicates, order (0 any, 1 increasing)
template <class M> inline Dense<typename M::value_type> dense_of(const M &A, const char *what, bool sorted = true) {
  typedef typename M::value_type T;
  const size_t m = A.nrows(), n = A.ncols(), N = M::ROW_MAJOR ? m : n, K = M::ROW_MAJOR ? n : m;
  Dense<T> d(m, n);
  CHECK(A.ind_start().size() == N + 1, "%s: start array has length %zu, expected %zu", what, (size_t)A.ind_start().size(), N + 1);
  CHECK(A.ind_start()[0] == 0, "%s: start[0] != 0", what);
  for (size_t a = 0; a < N; ++a) {
    const long s = A.ind_start()[a], e = A.ind_start()[a + 1];
    CHECK(s <= e, "%s: start array decreases at %zu", what, a);
    CHECK((size_t)e <= A.inds().size() && (size_t)e <= A.vals().size(), "%s: start array exceeds stored arrays", what);
    long prev = -1;
    for (long k = s; k < e; ++k) {
      const long b = A.inds()[k];
      CHECK(b >= 0 && (size_t)b < K, "%s: index %ld out of range", what, b);
      if (sorted) CHECK(b > prev, "%s: indices not strictly increasing in %zu", what, a);
      prev = b;
      const size_t i = M::ROW_MAJOR ? a : b, j = M::ROW_MAJOR ? b : a;
      CHECK(!d.has(i, j), "%s: duplicate entry (%zu,%zu)", what, i, j);
      d.set(i, j, A.vals()[k]);
    }
  }
  CHECK((size_t)A.ind_start()[N] == A.inds().size() && A.inds().size() == A.vals().size(), "%s: nnz mismatch start=%ld inds=%zu vals=%zu", what, (long)A.ind_start()[N], (size_t)A.inds().size(), (size_t)A.vals().size());
  return d;
}
template <class T> inline void same(const Dense<T> &a, const Dense<T> &b, const char *what) {
  CHECK(a.m == b.m && a.n == b.n, "%s: dimensions %zux%zu expected %zux%zu", what, a.m, a.n, b.m, b.n);
  for (size_t i = 0; i < a.m; ++i) for (size_t j = 0; j < a.n; ++j) {
    CHECK(a.has(i, j) == b.has(i, j), "%s: pattern differs at (%zu,%zu): got %d expected %d", what, i, j, (int)a.has(i, j), (int)b.has(i, j));
    CHECK(a(i, j) == b(i, j), "%s: value differs at (%zu,%zu)", what, i, j);
  }
}
template <class A, class B> inline bool eqv(const A &a, const B &b, size_t n) { for (size_t i = 0; i < n; ++i) if (!(a[i] == b[i])) return false; return true; }
template <class T> inline std::vector<T> rand_vec(Rng &r, size_t n) { std::vector<T> v(n); for (auto &x : v) x = Val<T>::get(r); return v; }
template <class T> inline hif::Array<T> arr(const std::vector<T> &v) { hif::Array<T> a(v.size()); std::copy(v.begin(), v.end(), a.begin()); return a; }
}
