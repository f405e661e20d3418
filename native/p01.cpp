// P01 bounded contract harness: conversions keep exactly the entries, order the minor indices, leave the source alone.
#include "nathif.hpp"
#include "hif/utils/coo2compress.hpp"
using namespace nat; using namespace hif;
template <class S, class D> static void conv(const Dense<typename S::value_type> &d, Rng &r) {
  typedef typename S::value_type T; typedef typename S::indptr_type P; typedef typename S::index_type I;
  S A = to_hif<S>(d, &r);
  const std::vector<P> p0(A.ind_start().begin(), A.ind_start().end()); const std::vector<I> i0(A.inds().begin(), A.inds().end()); const std::vector<T> v0(A.vals().begin(), A.vals().end());
  const P *pp = A.ind_start().data(); const I *pi = A.inds().data(); const T *pv = A.vals().data();
  { D B(A); same(dense_of(B, "converted"), d, "converted"); }
  CHECK(A.nrows() == d.m && A.ncols() == d.n && eqv(A.ind_start(), p0, p0.size()) && eqv(A.inds(), i0, i0.size()) && eqv(A.vals(), v0, v0.size()) && A.ind_start().data() == pp && A.inds().data() == pi && A.vals().data() == pv, "conversion changed its source");
  { D B; B = D(S(A)); S C(B); same(dense_of(C, "converted twice"), d, "converted twice"); }
}
template <class T> static void storage(Rng &r) {
  size_t m = r.in(0, 8), n = r.in(0, 8); if (r.p(0.1)) { m = r.in(20, 60); n = r.in(0, 30); } if (r.p(0.1)) { m = r.in(0, 10); n = r.in(20, 60); }
  auto d = rand_dense<T>(r, m, n, r.d(0, 1)); if (r.p(0.3)) for (size_t k = 0; k < 3 && m && n; ++k) { size_t i = r.in(0, (int)m - 1), j = r.in(0, (int)n - 1); for (size_t a = 0; a < m; ++a) { d.nz[a * n + j] = 0; d(a, j) = T(0); } for (size_t a = 0; a < n; ++a) { d.nz[i * n + a] = 0; d(i, a) = T(0); } }
  show("A", d);
  conv<CRS<T, int>, CCS<T, int>>(d, r); conv<CCS<T, int>, CRS<T, int>>(d, r);
  conv<CRS<T, long>, CCS<T, long>>(d, r);
  conv<CCS<T, int, long>, CRS<T, int, long>>(d, r);
  if (m && n) nontrivial(hash(ctx().str()));
}
template <class CS> static void coo1(Rng &r, const Dense<typename CS::value_type> &d) {
  typedef typename CS::value_type T; typedef typename CS::index_type I;
  std::vector<std::pair<size_t, size_t>> e; for (size_t i = 0; i < d.m; ++i) for (size_t j = 0; j < d.n; ++j) if (d.has(i, j)) e.push_back({i, j});
  int k = r.in(0, 2); if (k) for (size_t a = e.size(); a > 1; --a) std::swap(e[a - 1], e[r.u() % a]); if (k == 2) std::sort(e.begin(), e.end(), [](const std::pair<size_t, size_t> &x, const std::pair<size_t, size_t> &y) { return x.second != y.second ? x.second < y.second : x.first < y.first; });
  Array<I> R(e.size()), C(e.size()); Array<T> V(e.size()); for (size_t a = 0; a < e.size(); ++a) { R[a] = (I)e[a].first; C[a] = (I)e[a].second; V[a] = d(e[a].first, e[a].second); }
  const std::vector<I> r0(R.begin(), R.end()), c0(C.begin(), C.end()); const std::vector<T> v0(V.begin(), V.end());
  CS A; A.resize(d.m, d.n);
  if (CS::ROW_MAJOR) convert_coo2cs(d.m, d.n, R, C, V, A.ind_start(), A.inds(), A.vals()); else convert_coo2cs(d.n, d.m, C, R, V, A.ind_start(), A.inds(), A.vals());
  same(dense_of(A, "assembled"), d, "assembled");
  CHECK(eqv(R, r0, r0.size()) && eqv(C, c0, c0.size()) && eqv(V, v0, v0.size()), "assembly changed the triplets");
}
template <class T> static void coo(Rng &r) {
  size_t m = r.in(0, 8), n = r.in(0, 8); if (r.p(0.1)) { m = r.in(0, 50); n = r.in(0, 50); }
  auto d = rand_dense<T>(r, m, n, r.d(0, 1)); show("A", d);
  coo1<CRS<T, int>>(r, d); coo1<CCS<T, int>>(r, d); coo1<CRS<T, long>>(r, d);
  if (m && n) nontrivial(hash(ctx().str()));
}
int main(int argc, char **argv) {
  return nat::run(argc, argv, Cases{{"storage double", storage<double>}, {"coo double", coo<double>}, {"storage complex", storage<std::complex<double>>}, {"coo complex", coo<std::complex<double>>}, {"storage float", storage<float>}});
}
