// P08 bounded contract harness: permutations with inverse, prefix reordering, permutations stored by the factorization.
#include "nathif.hpp"
#include "hif/builder.hpp"
using namespace nat; using namespace hif;
template <class P> static void consistent(const P &p, size_t n, const char *what) {
  CHECK(p.size() == n && p.inv().size() == n, "%s: sizes %zu %zu expected %zu", what, (size_t)p.size(), (size_t)p.inv().size(), n);
  for (size_t i = 0; i < n; ++i) {
    CHECK(p[i] >= 0 && (size_t)p[i] < n, "%s: p[%zu]=%ld out of range", what, i, (long)p[i]);
    CHECK(p.inv(i) >= 0 && (size_t)p.inv(i) < n, "%s: inv[%zu]=%ld out of range", what, i, (long)p.inv(i));
    CHECK((size_t)p.inv(p[i]) == i, "%s: inv(p[%zu]) = %ld", what, i, (long)p.inv(p[i]));
    CHECK((size_t)p[p.inv(i)] == i, "%s: p[inv(%zu)] = %ld", what, i, (long)p[p.inv(i)]);
  }
}
static std::vector<int> rp(Rng &r, size_t n) { std::vector<int> v(n); for (size_t i = 0; i < n; ++i) v[i] = i; for (size_t k = n; k > 1; --k) std::swap(v[k - 1], v[r.u() % k]); return v; }
template <class Ix> static void basic(Rng &r) {
  const size_t n = r.in(0, 14); auto v = rp(r, n); ctx() << "perm " << str(v, n) << "\n";
  BiPermMatrix<Ix> p(n); std::copy(v.begin(), v.end(), p().begin()); for (auto &z : p.inv()) z = -77;
  p.build_inv(); consistent(p, n, "build_inv");
  for (size_t i = 0; i < n; ++i) CHECK(p[i] == v[i], "build_inv changed the permutation at %zu", i);
  for (int k = 0, K = n ? r.in(0, 20) : 0; k < K; ++k) {
    const size_t i = r.in(0, n - 1), j = r.p(.15) ? i : r.in(0, n - 1); const bool inv = r.p(.5);
    std::vector<Ix> a(p().begin(), p().end()), b(p.inv().begin(), p.inv().end());
    ctx() << (inv ? "interchange_inv " : "interchange ") << i << " " << j << "\n";
    if (inv) { p.interchange_inv(i, j); std::swap(b[i], b[j]); for (size_t q = 0; q < n; ++q) CHECK(p.inv(q) == b[q], "interchange_inv: inverse wrong at %zu", q); }
    else { p.interchange(i, j); std::swap(a[i], a[j]); for (size_t q = 0; q < n; ++q) CHECK(p[q] == a[q], "interchange: permutation wrong at %zu", q); }
    consistent(p, n, "interchange");
  }
  { BiPermMatrix<Ix> c(p, true); consistent(c, n, "clone"); if (n > 1) { c.interchange(0, 1); consistent(p, n, "original after changing the clone"); } }
  const bool eye0 = [&] { for (size_t i = 0; i < n; ++i) if ((size_t)p[i] != i) return false; return true; }();
  CHECK(p.is_eye() == eye0, "is_eye says %d", (int)p.is_eye());
  p.make_eye(); consistent(p, n, "make_eye"); for (size_t i = 0; i < n; ++i) CHECK((size_t)p[i] == i, "make_eye: p[%zu]", i); CHECK(p.is_eye(), "identity not recognised");
  const size_t n2 = r.in(0, 20); p.resize(n2); CHECK(p.size() == n2 && p.inv().size() == n2, "resize"); p.make_eye(); consistent(p, n2, "make_eye after resize");
  PermMatrix<Ix> s(n); s.make_eye(); for (size_t i = 0; i < n; ++i) CHECK((size_t)s[i] == i, "PermMatrix::make_eye"); if (n > 1) { s.interchange(0, n - 1); CHECK(s[0] == (Ix)(n - 1) && s[n - 1] == 0, "PermMatrix::interchange"); }
}
template <bool Sy> static void prefix(Rng &r) {
  const size_t n = r.in(1, 24), m0 = Sy && r.p(.6) ? r.in(1, n) : n; const bool ps = Sy && (m0 < n || r.p(.5)); Dense<double> d(n, n);   // also nearly symmetric patterns
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) if (i == j ? !r.p(.08) : r.p(.3)) { double a = r.d(-3, 3); if (a == 0) a = 1; d.set(i, j, i == j ? 6 * a : a); if (i != j && (ps || r.p(.6))) d.set(j, i, ps ? a : r.d(-3, 3)); }
  for (size_t i = 0; i < n; ++i) { bool ro = false, co = false; for (size_t j = 0; j < n; ++j) { ro |= d.has(i, j); co |= d.has(j, i); } if (!ro || !co) d.set(i, i, 1.5); }
  { bool any = false; for (size_t i = 0; i < m0; ++i) for (size_t j = 0; j < m0; ++j) any |= d.has(i, j); if (!any) d.set(0, 0, 2); }   // an empty block is refused by the matching
  show("A", d); ctx() << "m0 " << m0 << " sym " << Sy << "\n";
  auto A = to_hif<CCS<double, int>>(d); auto R = to_hif<CRS<double, int>>(d);
  Options o = get_default_options(); o.verbose = VERBOSE_NONE; o.is_symm = Sy;
  BiPermMatrix<int> p0, q0, p, q; Array<double> s0, t0, s, t;
  const size_t level = r.in(1, 2); auto prep = [&](BiPermMatrix<int> &P, BiPermMatrix<int> &Q, Array<double> &S, Array<double> &T) { P.resize(n); Q.resize(n); S.resize(n); T.resize(n); return do_preprocessing<Sy>(A, R, m0, level, o, S, T, P, Q); };
  o.reorder = REORDER_OFF; const size_t m = prep(p0, q0, s0, t0); consistent(p0, n, "p (no reordering)"); consistent(q0, n, "q (no reordering)");
  o.reorder = (int[]){REORDER_AUTO, REORDER_AMD, REORDER_RCM}[r.in(0, 2)]; ctx() << "reorder " << o.reorder << " level " << level << " m " << m << "\n";
  const size_t m1 = prep(p, q, s, t); CHECK(m1 == m, "leading block size depends on reordering: %zu vs %zu", m1, m);
  consistent(p, n, "p"); consistent(q, n, "q");
  for (size_t i = m; i < n; ++i) CHECK(p[i] == p0[i] && q[i] == q0[i], "reordering moved position %zu behind the leading block %zu", i, m);
  for (size_t i = 0; i < m; ++i) CHECK(q0[p0.inv(p[i])] == q[i], "row and column permutation reordered differently at %zu", i);
}
template <class P> static void factors(Rng &r) {
  const size_t n = r.in(2, 30); Dense<double> d(n, n);
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (i == j ? r.p(.8) : r.p(.25)) { double a = r.d(-3, 3); d.set(i, j, i == j && r.p(.7) ? 5 * a : a); }
  for (size_t i = 0; i < n; ++i) if (!d.has(i, (i + 1) % n)) d.set(i, (i + 1) % n, r.d(1, 2));
  show("A", d); auto A = to_hif<CRS<double, int>>(d); P M; Options o = get_default_options(); o.verbose = VERBOSE_NONE;
  o.pivot = r.in(0, 2); o.reorder = r.in(0, 3); o.dense_thres = r.in(1, 8); o.kappa = o.kappa_d = r.in(0, 1) ? 3 : 1.5; ctx() << "pivot " << o.pivot << " reorder " << o.reorder << " dense " << o.dense_thres << "\n";
  try { M.factorize(A, o); } catch (std::exception &) { return; }
  for (auto it = M.precs().cbegin(); it != M.precs().cend(); ++it) {
    const size_t N = it->n; if (!N) continue;
    CHECK(it->p.size() == N && it->p_inv.size() == N && it->q.size() == N && it->q_inv.size() == N, "stored permutation sizes");
    for (size_t i = 0; i < N; ++i) {
      CHECK(it->p[i] >= 0 && (size_t)it->p[i] < N && (size_t)it->p_inv[it->p[i]] == i, "stored row permutation and inverse disagree at %zu", i);
      CHECK(it->q[i] >= 0 && (size_t)it->q[i] < N && (size_t)it->q_inv[it->q[i]] == i, "stored column permutation and inverse disagree at %zu", i);
    }
  }
}
int main(int argc, char **argv) {
  return nat::run(argc, argv, [](Rng &r, uint64_t c) {
    if (c % 6 == 1) prefix<false>(r); else if (c % 6 == 3) prefix<true>(r); else if (c % 12 == 5) factors<HIF<double, int>>(r); else if (c % 2) basic<long>(r); else basic<int>(r);
    nontrivial(hash(ctx().str())); });
}
