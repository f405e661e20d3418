#include "irv.h"
#include "hif/ds/Array.hpp"
#include "hif/ds/PermMatrix.hpp"
#include "hif/Options.h"
#include <utility>
namespace hif {
// callees of do_preprocessing, replaced by their contracts: the matching leaves p, q arbitrary permutations and returns
// the leading block size, the reorderings return an arbitrary permutation of the leading block
struct FakeCs {
  typedef ptrdiff_t indptr_type; typedef int index_type; typedef size_t size_type; typedef double value_type;
  static constexpr bool ROW_MAJOR = false;
  size_t m; ptrdiff_t *P; size_t nr;
  size_t nrows() const { return nr; }
};
template <bool IsSymm, class SA, class PT> inline std::pair<FakeCs, size_t> do_maching(const FakeCs &A, const FakeCs &, const size_t, const size_t, const Options &, SA &, SA &, PT &, PT &) { return std::make_pair(A, A.m); }
template <bool B> inline Array<ptrdiff_t> run_amd(const FakeCs &A, const Options &) { return Array<ptrdiff_t>(A.m, A.P, true); }
inline Array<ptrdiff_t> run_rcm(const FakeCs &A, const Options &) { return Array<ptrdiff_t>(A.m, A.P, true); }
}
#include "hif/pre/driver.hpp"
using namespace hif;
struct Perm : BiPermMatrix<int> {
  Perm(size_t n, int *f, int *g) : BiPermMatrix<int>(Array<int>(n, f, true)) { Array<int> w(n, g, true); this->_p_inv.swap(w); }
};
extern "C" {
void drv_build_inv(size_t n, int *f, int *g) { Perm p(n, f, g); p.build_inv(); irv_ensure(1, p().data(), p.inv().data()); }
void drv_make_eye(size_t n, int *f, int *g) { Perm p(n, f, g); p.make_eye(); irv_ensure(1, p().data(), p.inv().data()); }
void drv_interchange(size_t n, int *f, int *g, size_t i, size_t j) { Perm p(n, f, g); p.interchange(i, j); irv_ensure(1, p().data(), p.inv().data()); }
void drv_interchange_inv(size_t n, int *f, int *g, size_t i, size_t j) { Perm p(n, f, g); p.interchange_inv(i, j); irv_ensure(1, p().data(), p.inv().data()); }
void drv_reorder(size_t n, size_t m, size_t m0, size_t nr, size_t level, int reorder, int *f, int *g, int *f2, int *g2, ptrdiff_t *P, bool symm) {
  Perm p(n, f, g), q(n, f2, g2);
  FakeCs A; A.m = m; A.P = P; A.nr = nr;
  Array<double> s(0, (double*)0, true), t(0, (double*)0, true);
  Options opt; opt.reorder = reorder; opt.verbose = 0;
  size_t r;
  if (symm) r = do_preprocessing<true>(A, A, m0, level, opt, s, t, p, q);
  else r = do_preprocessing<false>(A, A, m0, level, opt, s, t, p, q);
  irv_ensure(1, p().data(), p.inv().data(), q().data(), q.inv().data(), r);
}
}
