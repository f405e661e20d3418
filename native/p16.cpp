// P16 bounded contract harness: complete Crout factorizations with arbitrary deferrals, dropping and interchanges, each kernel checked against the dense formula on the stored factors.
#include "nathif.hpp"
#include "hif/alg/factor.hpp"
#include "hif/alg/pivot_factor.hpp"
using namespace nat; using namespace hif;
typedef std::complex<double> Z;
static std::vector<int> rperm(Rng &r, size_t n) { std::vector<int> p(n); for (size_t i = 0; i < n; ++i) p[i] = i; if (!r.p(0.15)) for (size_t i = n; i > 1; --i) std::swap(p[i - 1], p[r.u() % i]); return p; }
template <class T> struct Sum { T v = T(0); double mag = 0; int terms = 0; void add(T a) { v += a; mag += std::abs(a); ++terms; } };
template <class T> static bool near(T a, const Sum<T> &e) { return std::abs(a - e.v) <= 1e-11 * e.mag + 1e-290; }
// state of a factorization in terms of original rows and columns
template <class T> struct Fac {
  size_t n, m2; Dense<T> A; std::vector<double> s, t; Array<double> S, U; std::vector<int> rl, cl; // label of each row / column (-1: done), rows done in order
  std::vector<int> P, Q; // label -> id (-1: none), 2n labels
  std::vector<int> rs, cs; // step at which a row / column was eliminated
  std::vector<std::map<int, T>> L, R; std::vector<T> D; size_t step = 0, defers = 0; CRS<T, int> Ar; CCS<T, int> Ac;
  size_t ds() const { return step + defers; }
  T lv(size_t k, int row) const { auto i = L[k].find(row); return i == L[k].end() ? T(0) : i->second; }
  T rv(size_t k, int col) const { auto i = R[k].find(col); return i == R[k].end() ? T(0) : i->second; }
  Sum<T> entry(int row, int col) const { Sum<T> e; if (A.has(row, col)) e.add(s[row] * A(row, col) * t[col]); for (size_t k = 0; k < step; ++k) if (L[k].count(row) && R[k].count(col)) e.add(-lv(k, row) * D[k] * rv(k, col)); return e; }
};
template <class T> static void gen(Rng &r, Fac<T> &f, bool symm, bool hermless = true) {
  const size_t n = f.n = r.in(1, 10); f.m2 = r.p(0.4) ? n : r.in(1, (int)n); f.A = rand_dense<T>(r, n, n, r.p(0.2) ? 1. : r.d(0.05, 1));
  f.P.assign(2 * n, -1); f.Q.assign(2 * n, -1); auto p = rperm(r, n), q = symm ? p : rperm(r, n); for (size_t i = 0; i < n; ++i) { f.P[i] = p[i]; f.Q[i] = q[i]; }
  f.rl.resize(n); f.cl.resize(n); f.rs.assign(n, -1); f.cs.assign(n, -1); for (size_t i = 0; i < n; ++i) { f.rl[p[i]] = i; f.cl[q[i]] = i; }
  f.s.resize(n); f.t.resize(n); for (size_t i = 0; i < n; ++i) { f.s[i] = r.in(1, 4); f.t[i] = symm ? f.s[i] : r.in(1, 4); }
  if (r.p(0.7)) for (size_t i = 0; i < n; ++i) if (r.p(0.8)) f.A.set(p[i], q[i], T(r.in(1, 6)));
  if (symm) for (size_t i = 0; i < f.m2; ++i) for (size_t j = 0; j < i; ++j) { if (f.A.has(p[i], p[j])) f.A.set(p[j], p[i], f.A(p[i], p[j])); else { f.A.nz[p[j] * n + p[i]] = 0; f.A(p[j], p[i]) = T(0); } }
  show("A", f.A); showv("s", f.s, n); showv("t", f.t, n); showv("p", p, n); showv("q", q, n); ctx() << "m=" << f.m2 << "\n";
  f.S = arr(f.s); f.U = arr(f.t); f.Ar = to_hif<CRS<T, int>>(f.A, r.p(0.3) ? &r : nullptr); f.Ac = to_hif<CCS<T, int>>(f.A, r.p(0.3) ? &r : nullptr);
}
// contents of an accumulator: unique indices within range, values by id; the rest of the index range must be structurally zero
template <class T, class V> static std::map<int, T> content(const V &v, size_t lo, size_t hi, const char *w) {
  std::map<int, T> c; for (size_t i = 0; i < v.size(); ++i) { const size_t k = v.idx(i); CHECK(k > lo && k < hi, "%s: index %zu outside (%zu, %zu)", w, k, lo, hi); CHECK(!c.count(k), "%s: index %zu listed twice", w, k); c[k] = v.val(i); } return c;
}
template <class T, class F> static void against(const std::map<int, T> &c, const std::vector<int> &ids, size_t lo, size_t hi, const F &want, const char *w) {
  for (size_t k = lo + 1; k < hi; ++k) {
    auto it = c.find(k); if (ids[k] < 0) { CHECK(it == c.end(), "%s: value at position %zu which was deferred", w, k); continue; }
    const Sum<T> e = want(ids[k]); const T g = it == c.end() ? T(0) : it->second;
    CHECK(near(g, e), "%s: value at position %zu is (%.17g,%.17g), expected (%.17g,%.17g)", w, k, (double)std::real(g), (double)std::imag(g), (double)std::real(e.v), (double)std::imag(e.v));
  }
}
// indices of a stored factor row / column: eliminated ones first by step number, the others by current label, increasing; start points between
template <class T, class M, class St> static void structure(const M &X, const St &start, size_t steps, size_t done, const std::vector<std::map<int, T>> &F, const std::vector<int> &lab, const std::vector<int> &elim, const char *w) {
  for (size_t j = 0; j < steps; ++j) {
    std::map<int, T> e; size_t passed = 0; for (auto &x : F[j]) { const bool p = elim[x.first] >= 0 && elim[x.first] < (int)done; passed += p; e[p ? elim[x.first] : lab[x.first]] = x.second; }
    const size_t b = X.ind_start()[j]; CHECK((size_t)X.ind_start()[j + 1] - b == e.size(), "%s: number of entries of %zu", w, j);
    size_t k = b; for (auto &x : e) { CHECK(X.inds()[k] == x.first && X.vals()[k] == x.second, "%s: entry %zu of %zu is (%d), expected index %d with its value", w, k - b, j, (int)X.inds()[k], x.first); ++k; }
    CHECK((size_t)start[j] == passed, "%s: start of %zu is %zu, expected %zu", w, j, (size_t)start[j], passed);
  }
}
template <class T, class M, class St, class Li> static void lists(const M &X, const St &start, const Li &list, size_t steps, size_t from, size_t labels, const char *w) {
  for (size_t h = from; h < labels; ++h) {
    std::set<int> want, got; for (size_t j = 0; j < steps; ++j) if ((size_t)start[j] < X.nnz_in_primary(j) && (size_t)X.inds()[X.ind_start()[j] + start[j]] == h) want.insert(j);
    for (int j = list[h]; j != -1; j = list[j]) { CHECK(j >= 0 && (size_t)j < steps, "%s: list %zu contains %d", w, h, j); CHECK(!got.count(j), "%s: list %zu visits %d twice", w, h, j); got.insert(j); }
    CHECK(want == got, "%s: list %zu does not visit exactly the entries to be passed next", w, h);
  }
}
template <class T, class K> static void kappa_ok(bool one, T k, const Sum<T> &sum, const K &, const char *w) {
  const T k1 = T(1) - sum.v, k2 = -T(1) - sum.v; const double tol = 1e-11 * (sum.mag + 1); const T e = one ? k1 : k2;
  CHECK(std::abs(k - e) <= tol, "%s: condition estimate is %.17g, expected %.17g", w, (double)std::abs(k), (double)std::abs(e));
  CHECK(std::abs(e) >= std::max(std::abs(k1), std::abs(k2)) - tol, "%s: condition estimate takes the smaller magnitude", w); if (!sum.terms) CHECK(one, "%s: sign of the estimate", w);
}
template <class T> static void shuffle_drop(Rng &r, const std::map<int, T> &c, std::vector<int> &keep, double pd) { keep.clear(); for (auto &x : c) if (!r.p(pd)) keep.push_back(x.first); }
template <class T> static void defer(Fac<T> &f) { const int tail = f.n + f.defers, k = f.ds(); const int a = f.P[k], b = f.Q[k]; f.P[tail] = a; f.Q[tail] = b; f.rl[a] = f.cl[b] = tail; f.P[k] = f.Q[k] = -1; ++f.defers; }
template <class T> static void diag_ok(const Array<T> &d, const std::vector<T> &before, const std::function<Sum<T>(size_t)> &want, const char *w) { for (size_t i = 0; i < before.size(); ++i) { const Sum<T> e = want(i); CHECK(e.terms == 1 ? d[i] == before[i] : near(d[i], e), "%s: diagonal %zu is %.17g, expected %.17g", w, i, (double)std::real(d[i]), (double)std::real(e.v)); } }
template <class T> static std::vector<T> copy(const Array<T> &d) { return std::vector<T>(d.begin(), d.end()); }
template <class T> static void scaled(const std::map<int, T> &b, const std::map<int, T> &a, T dk, const char *w) { CHECK(a.size() == b.size(), "%s: indices change on scaling", w); for (auto &x : b) { auto it = a.find(x.first); CHECK(it != a.end() && std::abs(it->second * dk - x.second) <= 1e-13 * std::abs(x.second) + 1e-290, "%s: scaled value at %d", w, x.first); } }
static const size_t MAXN = 24;
// both factors, IsSymm: the leading block is symmetric and only the part of L below it is computed
template <class T, bool SY> static void crout(Rng &r) {
  Fac<T> f; gen(r, f, SY); const size_t n = f.n, m2 = f.m2; size_t m = m2; const double pd = r.p(0.5) ? 0 : r.d(0, 0.6), pf = r.p(0.4) ? 0 : r.d(0, 0.5), thr = r.d(0.01, 1);
  CRS<T, int> U(m2, n * 2); CCS<T, int> L(n * 2, m2); SparseVector<T, int> l(n * 2), ut(n * 2); typedef typename CRS<T, int>::indptr_type ip; Array<ip> Ls(m2), Us(m2), Lo; if (SY) Lo.resize(m2); const Array<ip> &cL = SY ? Lo : Ls;
  Array<int> Ll(n * 2), Ul(n * 2); std::fill(Ll.begin(), Ll.end(), -1); std::fill(Ul.begin(), Ul.end(), -1); Array<T> kl(m2), ku(m2), d(m2); U.begin_assemble_rows(); L.begin_assemble_cols();
  Array<int> p(n), q(n), Pi(n), Qi(n); for (size_t i = 0; i < n; ++i) { p[i] = f.P[i]; q[i] = f.Q[i]; Pi[p[i]] = i; Qi[q[i]] = i; } for (size_t i = 0; i < m2; ++i) d[i] = f.entry(p[i], q[i]).v;
  Crout step;
  auto kap = [&]() {
    const int row = f.P[f.ds()], col = f.Q[f.ds()];
    const bool o = step.update_kappa(U, Ul, Us, ku); Sum<T> su; for (size_t k = 0; k < f.step; ++k) if (f.R[k].count(col)) su.add(ku[k] * f.rv(k, col)); kappa_ok(o, ku[f.step], su, 0, "upper factor");
    const bool o2 = step.update_kappa(L, Ll, Ls, kl); Sum<T> sl; for (size_t k = 0; k < f.step; ++k) if (f.L[k].count(row)) sl.add(kl[k] * f.lv(k, row)); kappa_ok(o2, kl[f.step], sl, 0, "lower factor");
  };
  auto stru = [&](size_t steps, size_t done, size_t from) {
    structure<T>(U, Us, steps, done, f.R, f.cl, f.cs, "U"); structure<T>(L, Ls, steps, done, f.L, f.rl, f.rs, "L"); lists<T>(U, Us, Ul, steps, from, n + f.defers, "U"); lists<T>(L, Ls, Ll, steps, from, n + f.defers, "L");
    if (SY) for (size_t j = 0; j < steps; ++j) { size_t c = 0; for (auto &x : f.L[j]) c += (f.rs[x.first] >= 0 && f.rs[x.first] < (int)done) || f.rl[x.first] < (int)m2; CHECK((size_t)Lo[j] == c, "offset of column %zu of L is %zu, expected %zu", j, (size_t)Lo[j], c); }
  };
  for (; step < m; ++step) {
    CHECK((size_t)step == f.step && step.defers() == f.defers && step.deferred_step() == f.ds(), "step counters");
    kap(); bool stop = false;
    while (std::abs(d[f.ds()]) < thr || r.p(pf)) {
      --m; const size_t tail = n + f.defers; ctx() << "step " << f.step << ": defer position " << f.ds() << "\n";
      step.defer_entry(tail, Us, U, Ul); if (SY) step.symm_defer_l(tail, Ls, L, Ll, Lo); else step.defer_entry(tail, Ls, L, Ll);
      Pi[f.P[f.ds()]] = tail; Qi[f.Q[f.ds()]] = tail; defer(f); step.increment_defer_counter(); stru(f.step, f.step, f.ds());
      if (f.ds() >= m2) { stop = true; break; }
      kap();
    }
    if (stop) break;
    const int row = f.P[f.ds()], col = f.Q[f.ds()]; step.compress_array(d); step.compress_array(p); step.compress_array(q); CHECK(p[f.step] == row && q[f.step] == col, "compressed permutation");
    step.compute_ut(f.S, f.Ar, f.U, p[f.step], Qi, L, Ls, Ll, d, U, Us, ut); auto u0 = content<T>(ut, f.ds(), n + f.defers, "row of U"); against<T>(u0, f.Q, f.ds(), n + f.defers, [&](int c) { return f.entry(row, c); }, "row of U");
    step.template compute_l<SY>(f.S, f.Ac, f.U, Pi, q[f.step], m2, L, cL, d, U, Us, Ul, l); const size_t lo = SY ? m2 - 1 : f.ds(); auto l0 = content<T>(l, lo, n + f.defers, "column of L"); against<T>(l0, f.P, lo, n + f.defers, [&](int c) { return f.entry(c, col); }, "column of L");
    const T dk = d[f.step]; auto db = copy(d); CHECK(!step.scale_inv_diag(d, ut), "scaling reports a zero pivot"); auto u1 = content<T>(ut, f.ds(), n + f.defers, "row of U"); scaled(u0, u1, dk, "row of U"); CHECK(eqv(d, db, m2), "scaling changes the diagonal");
    step.template update_diag<SY>(l, ut, m2, d);
    diag_ok<T>(d, db, [&](size_t i) { Sum<T> e; e.add(db[i]); auto a = u1.find(i); if (a != u1.end()) { if (SY) e.add(-dk * a->second * a->second); else { auto b = l0.find(i); if (b != l0.end()) e.add(-a->second * b->second); } } return e; }, "pivot update");
    CHECK(!step.scale_inv_diag(d, l), "scaling reports a zero pivot"); auto l1 = content<T>(l, lo, n + f.defers, "column of L"); scaled(l0, l1, dk, "column of L");
    std::vector<int> ku_, kl_; shuffle_drop(r, u1, ku_, pd); shuffle_drop(r, l1, kl_, pd); std::map<int, T> Rm, Lm; for (int i : ku_) Rm[f.Q[i]] = u1[i]; for (int i : kl_) Lm[f.P[i]] = l1[i];
    U.push_back_row(f.step, ku_.begin(), ku_.end(), ut.vals());
    if (SY) { size_t c = 0; while (c < ku_.size() && ku_[c] < (int)m2) { Lm[f.P[ku_[c]]] = u1[ku_[c]]; ++c; } L.push_back_col(f.step, ku_.begin(), ku_.begin() + c, ut.vals(), kl_.begin(), kl_.end(), l.vals()); } else L.push_back_col(f.step, kl_.begin(), kl_.end(), l.vals());
    f.R.push_back(Rm); f.L.push_back(Lm); f.D.push_back(dk); f.rs[row] = f.cs[col] = f.step;
    step.update_compress(U, Ul, Us); step.update_compress(L, Ll, Ls); if (SY) { if (!f.defers && m2 == n) Lo[f.step] = L.nnz_in_col(f.step); else step.symm_update_lstart(L, m2, Lo); }
    ++f.step; stru(f.step, f.step, f.ds());
  }
  Array<int> pp(p), P2(n * 2); for (size_t i = 0; i < 2 * n; ++i) P2[i] = f.P[i]; for (; step < n; ++step) step.assign_gap_array(P2, p); std::vector<char> seen(n, 0); for (size_t i = 0; i < n; ++i) { CHECK(p[i] >= 0 && (size_t)p[i] < n && !seen[p[i]], "final permutation"); seen[p[i]] = 1; }
  if (n > 1) nontrivial(hash(ctx().str()));
}
template <class T> static void symm(Rng &r) {
  Fac<T> f; gen(r, f, true); const size_t n = f.n, m2 = f.m2; size_t m = m2; const double pd = r.p(0.5) ? 0 : r.d(0, 0.6), pf = r.p(0.4) ? 0 : r.d(0, 0.5), thr = r.d(0.01, 1);
  CCS<T, int> L(n * 2, m2); SparseVector<T, int> l(n * 2); typedef typename CRS<T, int>::indptr_type ip; Array<ip> Ls(m2); Array<int> Ll(n * 2); std::fill(Ll.begin(), Ll.end(), -1); Array<T> kl(m2), d(m2); L.begin_assemble_cols();
  Array<int> p(n), Pi(n); for (size_t i = 0; i < n; ++i) { p[i] = f.P[i]; Pi[p[i]] = i; } for (size_t i = 0; i < m2; ++i) d[i] = f.entry(p[i], p[i]).v;
  Crout step; auto kap = [&]() { const int row = f.P[f.ds()]; const bool o2 = step.update_kappa(L, Ll, Ls, kl); Sum<T> sl; for (size_t k = 0; k < f.step; ++k) if (f.L[k].count(row)) sl.add(kl[k] * f.lv(k, row)); kappa_ok(o2, kl[f.step], sl, 0, "lower factor"); };
  for (; step < m; ++step) {
    kap(); bool stop = false;
    while (std::abs(d[f.ds()]) < thr || r.p(pf)) { --m; ctx() << "step " << f.step << ": defer position " << f.ds() << "\n"; step.defer_entry(n + f.defers, Ls, L, Ll); Pi[f.P[f.ds()]] = n + f.defers; defer(f); step.increment_defer_counter(); structure<T>(L, Ls, f.step, f.step, f.L, f.rl, f.rs, "L"); lists<T>(L, Ls, Ll, f.step, f.ds(), n + f.defers, "L"); if (f.ds() >= m2) { stop = true; break; } kap(); }
    if (stop) break;
    const int row = f.P[f.ds()]; step.compress_array(d); step.compress_array(p); step.compute_symm(f.S, f.Ac, f.U, Pi, p[f.step], m2, L, Ls, Ll, d, l); auto l0 = content<T>(l, f.ds(), n + f.defers, "column of L");
    // the rows beyond the leading block hold the lower part only: both factors are L
    against<T>(l0, f.P, f.ds(), n + f.defers, [&](int c) { Sum<T> e; if (f.A.has(c, row)) e.add(f.s[c] * f.A(c, row) * f.t[row]); for (size_t k = 0; k < f.step; ++k) if (f.L[k].count(c) && f.L[k].count(row)) e.add(-f.lv(k, c) * f.D[k] * f.lv(k, row)); return e; }, "column of L");
    const T dk = d[f.step]; auto db = copy(d); CHECK(!step.scale_inv_diag(d, l), "scaling reports a zero pivot"); auto l1 = content<T>(l, f.ds(), n + f.defers, "column of L"); scaled(l0, l1, dk, "column of L");
    step.template update_diag<true>(l, l, m2, d); diag_ok<T>(d, db, [&](size_t i) { Sum<T> e; e.add(db[i]); auto a = l1.find(i); if (a != l1.end()) e.add(-dk * a->second * a->second); return e; }, "pivot update");
    std::vector<int> k_; shuffle_drop(r, l1, k_, pd); std::map<int, T> Lm; for (int i : k_) Lm[f.P[i]] = l1[i]; L.push_back_col(f.step, k_.begin(), k_.end(), l.vals()); f.L.push_back(Lm); f.R.push_back(Lm); f.D.push_back(dk); f.rs[row] = f.cs[row] = f.step; step.update_compress(L, Ll, Ls); ++f.step;
    structure<T>(L, Ls, f.step, f.step, f.L, f.rl, f.rs, "L"); lists<T>(L, Ls, Ll, f.step, f.ds(), n + f.defers, "L");
  }
  if (n > 1) nontrivial(hash(ctx().str()));
}
// interchanges by hand or by threshold pivoting on the augmented storages
template <class T> static void pivot(Rng &r) {
  Fac<T> f; gen(r, f, false); const size_t n = f.n, m2 = f.m2; size_t m = m2; const double pd = r.p(0.5) ? 0 : r.d(0, 0.6), pf = r.p(0.4) ? 0 : r.d(0, 0.5), thr = r.d(0.01, 1), gamma = r.d(0.1, 1), kmax = r.p(0.5) ? 1e300 : r.d(1, 5); const int mode = r.in(0, 2); ctx() << "gamma=" << gamma << " kmax=" << kmax << "\n";
  typedef AugCRS<CRS<T, int>> UM; typedef AugCCS<CCS<T, int>> LM; UM U(m2, n * 2); LM L(n * 2, m2); SparseVector<T, int> l(n * 2), ut(n * 2); typedef typename CRS<T, int>::indptr_type ip; Array<ip> Ls(m2), Us(m2); Array<T> kl(m2), ku(m2), d(m2);
  for (auto &x : d) x = T(r.in(1, 5)); U.begin_assemble_rows(); L.begin_assemble_cols(); Array<int> p(n), q(n), Pi(n), Qi(n); for (size_t i = 0; i < n; ++i) { p[i] = f.P[i]; q[i] = f.Q[i]; Pi[p[i]] = i; Qi[q[i]] = i; }
  PivotCrout step; auto info = [](const char *, ...) {};
  auto kap1 = [&](bool upper, size_t entry) { if (upper) { const int c = q[entry ? entry : f.ds()]; const bool o = step.update_kappa(U, ku, entry); Sum<T> s; for (size_t k = 0; k < f.step; ++k) if (f.R[k].count(c)) s.add(ku[k] * f.rv(k, c)); kappa_ok(o, ku[f.step], s, 0, "upper factor"); } else { const int c = p[entry ? entry : f.ds()]; const bool o = step.update_kappa(L, kl, entry); Sum<T> s; for (size_t k = 0; k < f.step; ++k) if (f.L[k].count(c)) s.add(kl[k] * f.lv(k, c)); kappa_ok(o, kl[f.step], s, 0, "lower factor"); } };
  auto sync = [&](const char *w) { // permutations after interchanges: same sets below m, everything else untouched, inverses consistent
    for (size_t k = f.ds(); k < n; ++k) { const int a = p[k], b = q[k]; CHECK(a >= 0 && (size_t)a < n && b >= 0 && (size_t)b < n && Pi[a] == (int)k && Qi[b] == (int)k, "%s: permutation and inverse disagree at %zu", w, k); if (k >= m2) CHECK(a == f.P[k] && b == f.Q[k], "%s: position %zu outside the remaining block moved", w, k); }
    for (size_t k = 0; k < f.step; ++k) CHECK(f.rs[p[k]] == (int)k && f.cs[q[k]] == (int)k, "%s: eliminated position %zu moved", w, k);
    for (size_t i = 0; i < n; ++i) if (f.rl[i] >= (int)n || f.cl[i] >= (int)n) CHECK((f.rl[i] < (int)n || Pi[i] == f.rl[i]) && (f.cl[i] < (int)n || Qi[i] == f.cl[i]), "%s: deferred position moved", w);
    for (size_t k = f.ds(); k < m2; ++k) { f.P[k] = p[k]; f.Q[k] = q[k]; f.rl[p[k]] = f.cl[q[k]] = k; }
  };
  auto stru = [&](size_t from) {
    structure<T>(U, Us, f.step, f.step, f.R, f.cl, f.cs, "U"); structure<T>(L, Ls, f.step, f.step, f.L, f.rl, f.rs, "L");
    for (size_t h = 0; h < n + f.defers; ++h) if (h < f.step || h >= from) {
      std::set<int> wr, wc, gr, gc; for (size_t j = 0; j < f.step; ++j) { for (size_t k = U.ind_start()[j]; k < (size_t)U.ind_start()[j + 1]; ++k) if ((size_t)U.inds()[k] == h) wc.insert(j); for (size_t k = L.ind_start()[j]; k < (size_t)L.ind_start()[j + 1]; ++k) if ((size_t)L.inds()[k] == h) wr.insert(j); }
      for (auto i = U.start_aug_id(h); !UM::is_nil(i); i = U.next_aug_id(i)) { const int j = U.primary_idx(i); CHECK(!gc.count(j), "U: list %zu visits %d twice", h, j); gc.insert(j); } for (auto i = L.start_aug_id(h); !LM::is_nil(i); i = L.next_aug_id(i)) { const int j = L.primary_idx(i); CHECK(!gr.count(j), "L: list %zu visits %d twice", h, j); gr.insert(j); }
      CHECK(U.nnz_in_secondary(h) == wc.size() && L.nnz_in_secondary(h) == wr.size(), "number of entries in list %zu", h); CHECK(wr == gr && wc == gc, "list %zu does not visit exactly the stored entries", h);
    }
  };
  auto lcol = [&](bool chk) { l.restore_cur_state(); const int col = f.Q[f.ds()]; step.compute_l(f.S, f.Ac, f.U, Pi, col, L, Ls, d, U, l); auto c = content<T>(l, f.ds(), n + f.defers, "column of L"); against<T>(c, f.P, f.ds(), n + f.defers, [&](int i) { return f.entry(i, col); }, "column of L"); return c; };
  auto urow = [&](bool chk) { ut.restore_cur_state(); const int row = f.P[f.ds()]; step.compute_ut(f.S, f.Ar, f.U, row, Qi, L, d, U, Us, ut); auto c = content<T>(ut, f.ds(), n + f.defers, "row of U"); against<T>(c, f.Q, f.ds(), n + f.defers, [&](int i) { return f.entry(row, i); }, "row of U"); return c; };
  auto dk_ok = [&](T g, const char *w) { const Sum<T> e = f.entry(f.P[f.ds()], f.Q[f.ds()]); CHECK(near(g, e), "%s: pivot is %.17g, expected %.17g", w, (double)std::real(g), (double)std::real(e.v)); };
  for (; step < m; ++step) {
    const size_t k = f.ds();
    if (mode == 0) { // by threshold
      auto opl = [&](const int i) { if ((size_t)i >= m2) return false; kap1(false, i); return std::abs(kl[f.step]) <= kmax; }; auto opu = [&](const int i) { if ((size_t)i >= m2) return false; step.update_kappa(U, ku, i); return std::abs(ku[f.step]) <= kmax; };
      std::vector<int> op(p.begin(), p.end()), oq(q.begin(), q.end()); const int steps = r.in(1, 5); const auto np = step.apply_thres_pivot(f.S, f.U, f.Ac, f.Ar, m2, gamma, steps, info, Ls, Us, opl, opu, p, Pi, q, Qi, L, d, U, l, ut); ctx() << "step " << f.step << ": pivots " << np.first << "," << np.second << "\n";
      CHECK(np.first >= 0 && np.second >= 0 && np.first <= steps && np.second <= steps, "pivot counts"); if (!np.first) CHECK(std::equal(op.begin(), op.end(), p.begin()), "rows moved without a row pivot"); if (!np.second) CHECK(std::equal(oq.begin(), oq.end(), q.begin()), "columns moved without a column pivot");
      sync("pivoting"); dk_ok(d[k], "after pivoting"); l.restore_cur_state(); ut.restore_cur_state();
    } else {
      for (int c = r.in(0, 2); c > 0 && k + 1 < m2; --c) {
        const bool rows = r.p(0.5); const size_t pv = r.in((int)k + 1, (int)m2 - 1); ctx() << "step " << f.step << ": interchange " << (rows ? "rows " : "columns ") << k << " and " << pv << "\n"; std::vector<int> o(rows ? p.begin() : q.begin(), rows ? p.end() : q.end());
        auto cand = rows ? lcol(true) : urow(true); const T nd = cand.count(pv) ? cand[pv] : T(0); const T od = d[k]; auto &vec = rows ? l : ut; if (!cand.count(pv)) vec.vals()[pv] = T(0);
        if (rows) step.interchange(pv, L, p, Pi, d, l); else step.interchange(pv, U, q, Qi, d, ut); auto &x = rows ? p : q; for (size_t i = 0; i < n; ++i) CHECK(x[i] == (i == k ? o[pv] : i == pv ? o[k] : o[i]), "interchange moves position %zu", i);
        CHECK(d[k] == nd && vec.vals()[pv] == od, "interchange does not exchange the pivot value"); sync("interchange"); stru(k);
      }
      d[k] = step.compute_dk(f.S, f.Ac, f.U, Pi, q[k], L, Ls, d, U); dk_ok(d[k], "compute_dk");
    }
    stru(k); kap1(true, 0); kap1(false, 0); bool stop = false;
    while (std::abs(d[f.ds()]) < thr || r.p(pf)) {
      --m; const size_t tail = n + f.defers; ctx() << "step " << f.step << ": defer position " << f.ds() << "\n"; step.defer_entry(tail, U); step.defer_entry(tail, L); Pi[f.P[f.ds()]] = tail; Qi[f.Q[f.ds()]] = tail; defer(f); step.increment_defer_counter(); stru(f.ds()); if (f.ds() >= m2) { stop = true; break; }
      kap1(true, 0); kap1(false, 0); d[f.ds()] = step.compute_dk(f.S, f.Ac, f.U, Pi, q[f.ds()], L, Ls, d, U); dk_ok(d[f.ds()], "compute_dk");
    }
    if (stop) break;
    auto l0 = lcol(true), u0 = urow(true); const int row = f.P[f.ds()], col = f.Q[f.ds()]; step.compress_array(d); step.compress_array(p); step.compress_array(q); const T dk = d[f.step];
    CHECK(!step.scale_inv_diag(d, ut) && !step.scale_inv_diag(d, l), "scaling reports a zero pivot"); auto u1 = content<T>(ut, f.ds(), n + f.defers, "row of U"); auto l1 = content<T>(l, f.ds(), n + f.defers, "column of L"); scaled(u0, u1, dk, "row of U"); scaled(l0, l1, dk, "column of L");
    std::vector<int> ku_, kl_; shuffle_drop(r, u1, ku_, pd); shuffle_drop(r, l1, kl_, pd); std::map<int, T> Rm, Lm; for (int i : ku_) Rm[f.Q[i]] = u1[i]; for (int i : kl_) Lm[f.P[i]] = l1[i];
    U.push_back_row(f.step, ku_.begin(), ku_.end(), ut.vals()); L.push_back_col(f.step, kl_.begin(), kl_.end(), l.vals()); f.R.push_back(Rm); f.L.push_back(Lm); f.D.push_back(dk); f.rs[row] = f.cs[col] = f.step; step.update_compress(U, Us); step.update_compress(L, Ls); ++f.step; stru(f.ds());
  }
  if (n > 1) nontrivial(hash(ctx().str()));
}
// scaling and pivot update alone: any magnitudes, both branches
template <class T> static void kernels(Rng &r) {
  const size_t n = r.in(1, 12), m = r.in(0, (int)n); Crout step; const int st = r.in(0, (int)n - 1); const int df = r.in(0, 2); for (int i = 0; i < st; ++i) ++step; for (int i = 0; i < df; ++i) step.increment_defer_counter(); ctx() << "n=" << n << " m=" << m << " step=" << st << " deferred=" << df << "\n";
  Array<T> d(n + 1); for (auto &x : d) x = Val<T>::get(r) + T(r.in(0, 1) * 0.5); const int kind = r.in(0, 5); d[st] = kind == 0 ? T(0) : kind == 1 ? T(std::ldexp(1., -1030)) : kind == 2 ? T(std::ldexp(1., r.in(-300, 300))) : T(r.p(0.5) ? r.in(1, 4) : -r.in(1, 4)); ctx() << "d=" << std::abs(d[st]) << "\n";
  SparseVector<T, int> a(n * 2 + 4), b(n * 2 + 4); auto fill = [&](SparseVector<T, int> &v) { std::map<int, T> c; for (auto &x : v.vals()) x = T(-99); const double pr = r.d(0, 1); for (size_t i = st + df + 1; i < 2 * n + 4; ++i) if (r.p(pr)) { v.push_back(i, st); v.vals()[i] = kind == 1 ? Val<T>::get(r) * T(std::ldexp(1., -1030)) : Val<T>::get(r); c[i] = v.vals()[i]; } return c; };
  auto ca = fill(a), cb = fill(b); auto db = copy(d); const bool bad = step.scale_inv_diag(d, a); CHECK(bad == (d[st] == T(0)), "zero pivot %s", bad ? "reported for a non-zero pivot" : "not reported"); auto a1 = content<T>(a, st + df, 2 * n + 4, "vector");
  if (bad) CHECK(a1 == ca, "values change although the pivot is zero"); else for (auto &x : ca) CHECK(std::abs(a1[x.first] - x.second / d[st]) <= 1e-12 * std::abs(x.second / d[st]), "scaled value"); CHECK(eqv(d, db, n + 1), "diagonal changed");
  if (kind >= 3) {
    const size_t mm = std::min(m, n + 1); step.update_diag<false>(b, a, mm, d); for (size_t i = 0; i <= n; ++i) { Sum<T> e; e.add(db[i]); if (i < mm && a1.count(i) && cb.count(i)) e.add(-a1[i] * cb[i]); CHECK(near(d[i], e), "pivot update at %zu", i); }
    auto d2 = copy(d); if (mm) step.update_diag<true>(b, a, mm, d); if (mm) for (size_t i = 0; i <= n; ++i) { Sum<T> e; e.add(d2[i]); if (i < mm && a1.count(i)) e.add(-d2[st] * a1[i] * a1[i]); CHECK(near(d[i], e), "symmetric pivot update at %zu", i); }
  }
  nontrivial(hash(ctx().str()));
}
int main(int c, char **v) {
  return run(c, v, Cases{{"two factors, real", crout<double, false>}, {"two factors, symmetric leading block", crout<double, true>}, {"one factor, symmetric", symm<double>}, {"pivoting, real", pivot<double>}, {"kernels, real", kernels<double>}, {"two factors, complex", crout<Z, false>}, {"pivoting, complex", pivot<Z>}, {"two factors, complex symmetric", crout<Z, true>}, {"kernels, complex", kernels<Z>}, {"one factor, complex symmetric", symm<Z>}});
}
