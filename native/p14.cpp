// P14 bounded contract harness: preprocessing (pre-scaling, matching, deferring of tiny diagonals, reordering) on random square matrices.
#include "nathif.hpp"
#include "hif/ds/PermMatrix.hpp"
#include "hif/pre/driver.hpp"
using namespace nat; using namespace hif;
template <class R> static bool good(R x) { return std::isfinite(x) && x > R(0); }
template <class T> struct Real_ { typedef T type; }; template <class R> struct Real_<std::complex<R>> { typedef R type; };
template <class P> static void biject(const P &p, size_t n, const char *w) {
  CHECK(p.size() == n && p.inv().size() == n, "%s: size %zu", w, (size_t)p.size()); std::vector<char> s(n, 0);
  for (size_t i = 0; i < n; ++i) { const long x = p[i]; CHECK(x >= 0 && (size_t)x < n && !s[x], "%s is not a permutation at %zu", w, i); s[x] = 1; CHECK((size_t)p.inv(x) == i, "%s: inverse inconsistent at %zu", w, i); }
}
template <class T> static Dense<T> gen(Rng &r, size_t n, bool sym, bool pat) {
  Dense<T> d(n, n); const int kind = r.in(0, 6); const double dens = kind == 0 ? 1 : r.d(0, 0.7); typedef typename Real_<T>::type R;
  auto val = [&]() -> T { T v = Val<T>::get(r); if (r.p(0.1)) v = T(0); if (kind == 2) v *= (R)std::pow(2., r.in(-30, 30)); return v; };
  const size_t blk = kind == 3 ? r.in(1, 4) : n; // disconnected graph
  for (size_t i = 0; i < n; ++i) for (size_t j = sym || pat ? i : 0; j < n; ++j) if (r.p(i == j ? (kind == 4 ? 0.2 : 0.7) : dens) && i / blk == j / blk) { d.set(i, j, val()); if ((sym || pat) && i != j) d.set(j, i, sym ? cj(d(i, j)) : val()); if (sym && i == j) d.set(i, i, T(std::real(d(i, i)))); }
  if (kind == 5 && n) { const size_t k = r.in(0, (int)n - 1); for (size_t j = 0; j < n; ++j) { if (d.has(k, j)) { d.set(k, j, T(0)); } if (sym && d.has(j, k)) d.set(j, k, T(0)); if (pat || !r.p(0.5)) continue; } if (r.p(0.5)) for (size_t j = 0; j < n; ++j) d.nz[k * n + j] = d.nz[j * n + k] = 0; }
  if (kind == 6) { const size_t z = r.in(0, (int)n); for (size_t i = 0; i < z; ++i) for (size_t j = 0; j < z; ++j) { d.nz[i * n + j] = 0; d(i, j) = T(0); } } // structurally singular / saddle point
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (!d.has(i, j)) d(i, j) = T(0);
  return d;
}
template <class T, bool SY> static void pre(Rng &r, bool big) {
  typedef typename Real_<T>::type R; const size_t n = big ? r.in(20, 60) : r.in(1, 10), m0 = r.p(0.6) ? n : r.in(1, (int)n);
  Dense<T> d = gen<T>(r, n, SY && r.p(0.7), SY); if (!big) show("A", d);
  Options o = get_default_options(); o.verbose = 0; o.pre_scale = r.in(-1, 3) < 0 ? 0 : r.in(0, 3); o.reorder = r.in(0, REORDER_NULL - 1); o.beta = r.p(0.5) ? 1e3 : r.p(0.5) ? -1. : 2.; const size_t level = r.in(1, 3);
  ctx() << "n=" << n << " m0=" << m0 << " pre_scale=" << o.pre_scale << " reorder=" << o.reorder << " level=" << level << " symm=" << SY << " beta=" << o.beta << "\n";
  CRS<T, int> A = to_hif<CRS<T, int>>(d); CCS<T, int> C = to_hif<CCS<T, int>>(d);
  size_t lead = 0; for (size_t i = 0; i < m0; ++i) for (size_t j = 0; j < m0; ++j) lead += d.has(i, j);
  Array<R> s, t; BiPermMatrix<int> p, q; size_t m;
  if (r.p(0.3)) { p.resize(r.in(0, 12)); q.resize(r.in(0, 12)); s.resize(3); } // work objects may hold anything
  try { m = do_preprocessing<SY>(C, A, m0, level, o, s, t, p, q); }
  catch (std::exception &e) { CHECK(!lead, "refused: %s", e.what()); if (level == 1) /* the user's matrix */ same(dense_of(A, "A"), d, "A"); return; }
  same(dense_of(A, "row storage after"), d, "row storage after"); same(dense_of(C, "column storage after"), d, "column storage after");
  CHECK(m <= m0, "leading size %zu exceeds the requested %zu", m, m0); biject(p, n, "p"); biject(q, n, "q");
  CHECK(s.size() == n && t.size() == n, "scaling sizes");
  for (size_t i = 0; i < n; ++i) CHECK(good(s[i]) && good(t[i]), "scaling %zu is %g, %g", i, (double)s[i], (double)t[i]);
  for (size_t i = 0; i < m0; ++i) CHECK((size_t)p[i] < m0 && (size_t)q[i] < m0, "the requested block mixes with the rest at %zu", i);
  for (size_t i = m0; i < n; ++i) CHECK((size_t)p[i] == i && (size_t)q[i] == i && s[i] == R(1) && t[i] == R(1), "position %zu beyond the requested block changed", i);
  if (SY) for (size_t i = 0; i < n; ++i) CHECK(p[i] == q[i] && s[i] == t[i], "symmetric case: row and column treated differently at %zu", i);
  auto bad = [&](size_t i, size_t j) -> bool { if (!d.has(i, j)) return true; R mx(0); for (size_t k = 0; k < n; ++k) mx = std::max(mx, std::max((R)std::abs(d(i, k)), (R)std::abs(d(k, j)))); if (mx == R(0)) mx = 1; return std::abs(d(i, j)) <= mx * std::numeric_limits<R>::epsilon(); };
  for (size_t i = 0; i < m; ++i) CHECK(!bad(p[i], q[i]), "leading diagonal entry %zu is missing or negligible", i);
  for (size_t i = m; i < m0; ++i) CHECK(bad(p[i], q[i]), "position %zu deferred although its diagonal entry is fine", i);
  nontrivial(hash(ctx().str()) + r.u());
}
template <class T> static void lead(Rng &r) {
  const size_t n = r.in(1, 10), m = r.in(1, (int)n); Dense<T> d = rand_dense<T>(r, n, n, r.d(0, 1));
  std::vector<int> P(n), Q(n); for (size_t i = 0; i < n; ++i) P[i] = Q[i] = i; for (size_t i = n; i > 1; --i) { std::swap(P[i - 1], P[r.u() % i]); std::swap(Q[i - 1], Q[r.u() % i]); }
  BiPermMatrix<int> p(n), q(n); for (size_t i = 0; i < n; ++i) p[i] = P[i], q[i] = Q[i]; p.build_inv(); q.build_inv(); const bool ap = r.p(0.5); for (size_t i = 0; i < m; ++i) d.set(P[i], Q[i], T(r.in(1, 4))); /* the leading diagonal is stored */ show("A", d); showv("p", P, n); showv("q", Q, n); ctx() << "m=" << m << " union=" << ap << "\n";
  CRS<T, int> A = to_hif<CRS<T, int>>(d); CCS<T, int> C = to_hif<CCS<T, int>>(d);
  auto B = internal::compute_leading_block(C, A, m, p, q, ap); CHECK(B.nrows() == m && B.ncols() == m && B.col_start().size() == m + 1 && B.col_start()[0] == 0, "sizes"); CHECK((size_t)B.col_start()[m] == B.row_ind().size(), "entry count");
  for (size_t j = 0; j < m; ++j) { std::vector<long> e, g; for (size_t i = 0; i < m; ++i) if (d.has(P[i], Q[j]) || (ap && d.has(P[j], Q[i]))) e.push_back(i);
    for (auto k = B.col_start()[j]; k < B.col_start()[j + 1]; ++k) g.push_back(B.row_ind()[k]); CHECK(e == g, "pattern of column %zu differs", j); }
  for (size_t i = 0; i < n; ++i) CHECK(p[i] == P[i] && q[i] == Q[i], "permutations changed"); same(dense_of(A, "A"), d, "A"); same(dense_of(C, "A"), d, "A"); nontrivial(hash(ctx().str()));
}
template <class T> static void defer(Rng &r) {
  const size_t n = r.in(1, 10), m0 = r.in(0, (int)n); Dense<T> d = gen<T>(r, n, false, false); show("A", d); std::vector<int> P(n), Q(n); for (size_t i = 0; i < n; ++i) P[i] = Q[i] = i;
  for (size_t i = n; i > 1; --i) { std::swap(P[i - 1], P[r.u() % i]); std::swap(Q[i - 1], Q[r.u() % i]); } showv("p", P, n); showv("q", Q, n); ctx() << "m0=" << m0 << "\n";
  CRS<T, int> A = to_hif<CRS<T, int>>(d); CCS<T, int> C = to_hif<CCS<T, int>>(d); typedef typename Real_<T>::type R;
  BiPermMatrix<int> p(n), q(n); for (size_t i = 0; i < n; ++i) p[i] = P[i], q[i] = Q[i]; auto &wp = p.inv(), &wq = q.inv(); const size_t m = internal::defer_tiny_diags<false>(C, A, m0, p, q, wp, wq);
  auto bad = [&](size_t i, size_t j) -> bool { if (!d.has(i, j)) return true; R mx(0); for (size_t k = 0; k < n; ++k) mx = std::max(mx, std::max((R)std::abs(d(i, k)), (R)std::abs(d(k, j)))); if (mx == R(0)) mx = 1; return std::abs(d(i, j)) <= mx * std::numeric_limits<R>::epsilon(); };
  std::vector<std::pair<int, int>> e; for (int w = 0; w < 2; ++w) for (size_t i = 0; i < m0; ++i) if (bad(P[i], Q[i]) == (w == 1)) e.push_back({P[i], Q[i]}); size_t k = 0; for (size_t i = 0; i < m0; ++i) k += !bad(P[i], Q[i]);
  CHECK(m == k, "leading size %zu expected %zu", m, k); for (size_t i = 0; i < m0; ++i) CHECK(p[i] == e[i].first && q[i] == e[i].second, "order after deferring differs at %zu", i); for (size_t i = m0; i < n; ++i) CHECK(p[i] == P[i] && q[i] == Q[i], "position %zu beyond the block changed", i);
  nontrivial(hash(ctx().str()));
}
int main(int argc, char **argv) {
  typedef std::complex<double> Z;
  return run(argc, argv, Cases{{"preprocessing, double", [](Rng &r) { pre<double, false>(r, false); }}, {"preprocessing, symmetric, double", [](Rng &r) { pre<double, true>(r, false); }}, {"preprocessing, complex", [](Rng &r) { pre<Z, false>(r, false); }}, {"preprocessing, Hermitian", [](Rng &r) { pre<Z, true>(r, false); }},
    {"preprocessing, float", [](Rng &r) { pre<float, false>(r, false); }}, {"preprocessing, larger", [](Rng &r) { if (r.p(0.5)) pre<double, false>(r, true); else pre<double, true>(r, true); }}, {"leading block", [](Rng &r) { lead<double>(r); }}, {"leading block, complex", [](Rng &r) { lead<Z>(r); }}, {"deferring", [](Rng &r) { defer<double>(r); }}, {"deferring, complex", [](Rng &r) { defer<Z>(r); }}});
}
