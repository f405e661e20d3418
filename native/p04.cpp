// P04 bounded contract harness: splits, leading blocks, permuted blocks, scaling and pruning against the dense definition.
#include "nathif.hpp"
using namespace nat; using namespace hif;
template <class T> static Dense<T> sub(const Dense<T> &d, size_t i0, size_t i1, size_t j0, size_t j1) { Dense<T> r(i1 - i0, j1 - j0); for (size_t i = i0; i < i1; ++i) for (size_t j = j0; j < j1; ++j) if (d.has(i, j)) r.set(i - i0, j - j0, d(i, j)); return r; }
template <class CS> struct Frozen {
  typedef typename CS::value_type T; const CS &A; std::vector<typename CS::indptr_type> p; std::vector<typename CS::index_type> i; std::vector<T> v; size_t m, n; const void *a, *b, *c;
  Frozen(const CS &B) : A(B), p(B.ind_start().begin(), B.ind_start().end()), i(B.inds().begin(), B.inds().end()), v(B.vals().begin(), B.vals().end()), m(B.nrows()), n(B.ncols()), a(B.ind_start().data()), b(B.inds().data()), c(B.vals().data()) {}
  void check(const char *w) const { CHECK(A.nrows() == m && A.ncols() == n && A.ind_start().size() == p.size() && A.inds().size() == i.size() && A.vals().size() == v.size() && eqv(A.ind_start(), p, p.size()) && eqv(A.inds(), i, i.size()) && eqv(A.vals(), v, v.size()) && A.ind_start().data() == a && A.inds().data() == b && A.vals().data() == c, "%s changed its source", w); }
};
template <class CS> static void splits(const CS &A, const Dense<typename CS::value_type> &d, size_t m);
template <class T> static std::pair<Dense<T>, Dense<T>> cut(const Dense<T> &d, bool rows, size_t m) { return rows ? std::make_pair(sub(d, 0, m, 0, d.n), sub(d, m, d.m, 0, d.n)) : std::make_pair(sub(d, 0, d.m, 0, m), sub(d, 0, d.m, m, d.n)); }
template <class CS> static Array<typename CS::indptr_type> starts(const CS &A, size_t m) {
  const size_t n = A.primary_size(); Array<typename CS::indptr_type> s(n);
  for (size_t i = 0; i < n; ++i) { auto k = A.ind_start()[i]; while (k < A.ind_start()[i + 1] && (size_t)A.inds()[k] < m) ++k; s[i] = k; }
  return s;
}
template <class I> static void doc(const CRS<I, int> &A, const Dense<I> &d, size_t m, Rng &r) {
  auto s = starts(A, m); auto c = cut(d, false, m); Frozen<CRS<I, int>> f(A);
  { auto p = A.split(m); same(dense_of(p.first, "split first"), c.first, "split first"); same(dense_of(p.second, "split second"), c.second, "split second"); }
  { auto p = A.split(m, s); same(dense_of(p.first, "split first (start)"), c.first, "split first (start)"); same(dense_of(p.second, "split second (start)"), c.second, "split second (start)"); }
  same(dense_of(A.template split_ccs<false>(m), "split_ccs first"), c.first, "split_ccs first"); same(dense_of(A.template split_ccs<true>(m), "split_ccs second"), c.second, "split_ccs second");
  same(dense_of(A.template split_ccs<false>(m, s), "split_ccs first (start)"), c.first, "split_ccs first (start)"); same(dense_of(A.template split_ccs<true>(m, s), "split_ccs second (start)"), c.second, "split_ccs second (start)");
  f.check("split");
  CHECK(s.size() == A.nrows() && eqv(s, starts(A, m), s.size()), "split changed the start positions");
}
template <class I> static void doc(const CCS<I, int> &A, const Dense<I> &d, size_t m, Rng &r) {
  auto s = starts(A, m); auto c = cut(d, true, m); Frozen<CCS<I, int>> f(A);
  { auto p = A.split(m); same(dense_of(p.first, "split first"), c.first, "split first"); same(dense_of(p.second, "split second"), c.second, "split second"); }
  { auto p = A.split(m, s); same(dense_of(p.first, "split first (start)"), c.first, "split first (start)"); same(dense_of(p.second, "split second (start)"), c.second, "split second (start)"); }
  same(dense_of(A.template split_crs<false>(m), "split_crs first"), c.first, "split_crs first"); same(dense_of(A.template split_crs<true>(m), "split_crs second"), c.second, "split_crs second");
  same(dense_of(A.template split_crs<false>(m, s), "split_crs first (start)"), c.first, "split_crs first (start)"); same(dense_of(A.template split_crs<true>(m, s), "split_crs second (start)"), c.second, "split_crs second (start)");
  f.check("split");
}
template <class CS> static void dosplit(Rng &r) {
  typedef typename CS::value_type T; size_t m = r.in(0, 8), n = r.in(0, 8); auto d = rand_dense<T>(r, m, n, r.p(0.2) ? 1. : r.d(0, 1)); show("A", d);
  CS A = to_hif<CS>(d); const size_t k = r.in(0, (int)(CS::ROW_MAJOR ? n : m)); ctx() << "split at " << k << "\n"; doc(A, d, k, r);
  if (m && n) nontrivial(hash(ctx().str()));
}
template <class CS> static void lead(Rng &r) {
  typedef typename CS::value_type T; size_t m = r.in(0, 8), n = r.in(0, 8); auto d = rand_dense<T>(r, m, n, r.d(0, 1)); show("A", d);
  CS A = to_hif<CS>(d); Frozen<CS> f(A); const size_t k = r.in(0, (int)std::min(m, n)); ctx() << "leading " << k << "\n";
  same(dense_of(A.extract_leading(k), "leading block"), sub(d, 0, k, 0, k), "leading block"); f.check("extract_leading");
  // permuted (leading) block
  std::vector<int> p(m), q(n); for (size_t i = 0; i < m; ++i) p[i] = i; for (size_t i = 0; i < n; ++i) q[i] = i;
  for (size_t i = m; i > 1; --i) std::swap(p[i - 1], p[r.u() % i]); for (size_t i = n; i > 1; --i) std::swap(q[i - 1], q[r.u() % i]);
  const size_t l = r.in(0, (int)std::min(m, n)); Array<int> P(m), Q(n), Pt(m), Qt(n); for (size_t i = 0; i < m; ++i) { P[i] = p[i]; Pt[p[i]] = i; } for (size_t i = 0; i < n; ++i) { Q[i] = q[i]; Qt[q[i]] = i; }
  showv("p", p, m); showv("q", q, n); ctx() << "leading block " << l << "\n";
  Dense<T> e(l ? l : m, l ? l : n); for (size_t i = 0; i < e.m; ++i) for (size_t j = 0; j < e.n; ++j) if (d.has(p[i], q[j])) e.set(i, j, d(p[i], q[j]));
  { CS B = CS::ROW_MAJOR ? A.compute_perm(P, Qt, l) : A.compute_perm(Pt, Q, l); same(dense_of(B, "permuted"), e, "permuted"); }
  { CS B = CS::ROW_MAJOR ? A.compute_perm(P, Qt, l, true) : A.compute_perm(Pt, Q, l, true); B.vals().resize(B.inds().size()); auto g = dense_of(B, "permuted structure"); for (size_t i = 0; i < e.m; ++i) for (size_t j = 0; j < e.n; ++j) CHECK(g.has(i, j) == e.has(i, j), "permuted structure differs at (%zu,%zu)", i, j); }
  f.check("compute_perm"); for (size_t i = 0; i < m; ++i) CHECK(P[i] == p[i] && Pt[p[i]] == (int)i, "permutation changed");
  if (m && n) nontrivial(hash(ctx().str()));
}
template <class CS> static void scale(Rng &r) {
  typedef typename CS::value_type T; size_t m = r.in(0, 8), n = r.in(0, 8); auto d = rand_dense<T>(r, m, n, r.d(0, 1)); show("A", d);
  auto s = rand_vec<T>(r, m), t = rand_vec<T>(r, n); showv("s", s, m); showv("t", t, n); Array<T> S = arr(s), U = arr(t);
  Dense<T> l = d, g = d, b = d; for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) if (d.has(i, j)) { l(i, j) *= s[i]; g(i, j) *= t[j]; b(i, j) *= s[i] * t[j]; }
  { CS A = to_hif<CS>(d, &r); A.scale_diag_left(S); same(dense_of(A, "row scaled", false), l, "row scaled"); }
  { CS A = to_hif<CS>(d, &r); A.scale_diag_right(U); same(dense_of(A, "column scaled", false), g, "column scaled"); }
  { CS A = to_hif<CS>(d, &r); A.scale_diags(S, U); same(dense_of(A, "scaled on both sides", false), b, "scaled on both sides"); }
  CHECK(eqv(S, s, m) && eqv(U, t, n), "scaling changed the factors");
  if (m && n) nontrivial(hash(ctx().str()));
}
template <class CS> static void prune(Rng &r) {
  typedef typename CS::value_type T; size_t m = r.in(0, 8), n = r.in(0, 8); auto d = rand_dense<T>(r, m, n, r.d(0, 1));
  for (size_t i = 0; i < m * n; ++i) d.a[i] *= std::ldexp(1.0, r.in(-6, 3)); show("A", d);
  const double eps = r.p(0.2) ? 0.0 : r.p(0.1) ? -1.0 : std::ldexp(1.0, -r.in(0, 6)); const bool sh = r.p(0.5); ctx() << "eps " << eps << " shrink " << sh << "\n"; const double ee = eps < 0 ? 0 : eps;
  std::vector<double> rm(m, 0), cm(n, 0); for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) { rm[i] = std::max(rm[i], (double)std::abs(d(i, j))); cm[j] = std::max(cm[j], (double)std::abs(d(i, j))); }
  size_t gone = 0; Dense<T> e(m, n); for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) if (d.has(i, j)) { if ((double)std::abs(d(i, j)) <= ee * std::min(rm[i], cm[j])) ++gone; else e.set(i, j, d(i, j)); }
  CS A = to_hif<CS>(d); const size_t k = A.prune(eps, sh); CHECK(k == gone, "pruned %zu entries, expected %zu", k, gone); same(dense_of(A, "pruned"), e, "pruned");
  if (m && n) nontrivial(hash(ctx().str()));
}
template <template <class> class F, class T> struct Both {};
#define BOTH(f) {#f " CRS", f<CRS<double, int>>}, {#f " CCS", f<CCS<double, int>>}, {#f " CRS complex", f<CRS<std::complex<double>, int>>}, {#f " CCS complex", f<CCS<std::complex<double>, int>>}
int main(int argc, char **argv) { return nat::run(argc, argv, Cases{BOTH(dosplit), BOTH(lead), BOTH(scale), {"prune CRS", prune<CRS<double, int>>}, {"prune CCS", prune<CCS<double, int>>}}); }
