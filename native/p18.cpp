// P18 bounded contract harness: whole factorizations with dropping disabled on random well-conditioned matrices, every combination of options,
// solves (plain and transposed) against the known solution, products, sizes / ranks / non-zero counts against the stored levels, earlier factorizations on the same object.
#include "nathif.hpp"
#include "hif/builder.hpp"
using namespace nat; using namespace hif;
typedef std::complex<double> Z;
template <class T> struct Rnd { static T v(Rng &r) { T x = T(r.d(-1, 1)); return x; } };
template <> struct Rnd<Z> { static Z v(Rng &r) { return Z(r.d(-1, 1), r.d(-1, 1)); } };
// inverse by Gauss-Jordan with complete row pivoting; returns false when singular
template <class T> static bool inverse(Dense<T> A, Dense<T> &X) {
  const size_t n = A.m; X = Dense<T>(n, n); for (size_t i = 0; i < n; ++i) X(i, i) = T(1);
  for (size_t k = 0; k < n; ++k) {
    size_t b = k; for (size_t i = k; i < n; ++i) if (std::abs(A(i, k)) > std::abs(A(b, k))) b = i;
    if (std::abs(A(b, k)) < 1e-9) return false;
    for (size_t j = 0; j < n; ++j) { std::swap(A(b, j), A(k, j)); std::swap(X(b, j), X(k, j)); }
    const T d = T(1) / A(k, k); for (size_t j = 0; j < n; ++j) { A(k, j) *= d; X(k, j) *= d; }
    for (size_t i = 0; i < n; ++i) if (i != k && A(i, k) != T(0)) { const T f = A(i, k); for (size_t j = 0; j < n; ++j) { A(i, j) -= f * A(k, j); X(i, j) -= f * X(k, j); } }
  }
  return true;
}
template <class T> static double nrm(const Dense<T> &A) { double m = 0; for (size_t i = 0; i < A.m; ++i) { double s = 0; for (size_t j = 0; j < A.n; ++j) s += std::abs(A(i, j)); m = std::max(m, s); } return m; }
template <class T> static Dense<T> gen(Rng &r, bool herm, bool cj_, double &cond, size_t &m0) {
  for (;;) {
    const size_t n = r.p(.15) ? r.in(15, 30) : r.in(1, 12); const double dens = r.p(.2) ? 1. : r.d(0.05, .6); Dense<T> A(n, n); const int kind = r.in(0, 4); m0 = 0;
    std::vector<int> q(n); for (size_t i = 0; i < n; ++i) q[i] = i; if (kind >= 2 && !herm) for (size_t i = n; i > 1; --i) std::swap(q[i - 1], q[r.u() % i]);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (r.p(dens)) A.set(i, j, Rnd<T>::v(r));
    for (size_t i = 0; i < n; ++i) { if (kind == 0 || (kind == 1 && r.p(.7)) || (kind >= 2 && r.p(.95))) A.set(i, q[i], T(r.d(1, 4) * (r.p(.5) ? 1 : -1))); else if (kind == 3 && herm && r.p(.5) && A.has(i, i)) { A.nz[i * n + i] = 0; A(i, i) = T(0); } }
    if (herm) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) { if (i == j) { if (A.has(i, i) && cj_) A(i, i) = T(std::real(A(i, i))); } else if (A.has(i, j)) A.set(j, i, cj_ ? cj(A(i, j)) : A(i, j)); else { A(j, i) = T(0); A.nz[j * n + i] = 0; } }
    if (r.p(.3)) { std::vector<double> sc(n); for (auto &x : sc) x = std::ldexp(1., r.in(-3, 3)); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) A(i, j) *= sc[i] * (herm ? sc[j] : 1.); }
    Dense<T> X; if (!inverse(A, X)) continue;
    if ((cond = nrm(A) * nrm(X)) > 1e4) continue;
    if (herm && r.p(.5)) m0 = n; else if (herm && r.p(.5)) m0 = r.in(1, n);
    return A;
  }
}
template <class V> static void closeto(const V &x, const V &y, size_t n, double tol, const char *w) { double s = 0, d = 0; for (size_t i = 0; i < n; ++i) { s = std::max(s, (double)std::abs(y[i])); const double e = std::abs(x[i] - y[i]); if (!(e <= d)) d = e; if (e != e) { d = 1e300; break; } } CHECK(d <= tol * s, "%s: error %.3g of %.3g", w, d, s); }
static Options opts(Rng &r) {
  Options o = get_default_options(); o.verbose = VERBOSE_NONE; o.tau_L = o.tau_U = 0; o.alpha_L = o.alpha_U = r.p(.5) ? 1e4 : 200.; o.kappa = o.kappa_d = r.p(.4) ? 3. : r.d(1.05, 20);
  o.rho = r.p(.3) ? .5 : 1e9; o.c_d = r.p(.3) ? 10. : r.d(0.01, 2); o.dense_thres = r.p(.3) ? 2000 : r.in(1, 3); o.N = r.p(.6) ? -1 : r.in(0, 20); o.reorder = r.in(0, 3); o.check = r.in(0, 1); o.pre_scale = r.in(0, 2);
  o.symm_pre_lvls = r.in(-3, 3); o.threads = r.in(0, 2); o.fat_schur_1st = r.in(0, 1); o.pivot = r.in(0, 2); o.gamma = r.p(.5) ? 1. : r.d(.2, 1.); o.beta = r.p(.6) ? 1e3 : r.d(1.1, 50); o.no_pre = r.p(.1); o.nzp_thres = r.d(0, 1); o.rf_par = r.in(0, 1); o.spd = 0; return o;
}
template <class M> static M base1(const M &A) { M B(A.nrows(), A.ncols()); typedef typename M::iparray_type ip; typedef typename M::iarray_type ia; B.ind_start() = ip(A.ind_start(), true); B.inds() = ia(A.inds(), true); B.vals() = A.vals(); for (auto &x : B.ind_start()) ++x; for (auto &x : B.inds()) ++x; return B; }
template <class M, class H> static bool factorize(Rng &r, H &P, const Dense<typename M::value_type> &D, const Options &o, size_t m0) {
  const bool one = r.p(.15); ctx() << (M::ROW_MAJOR ? "rows" : "columns") << (one ? " 1-based" : "") << "\n";
  M A = to_hif<M>(D); if (one) A = base1(A); const std::vector<long> p(A.ind_start().begin(), A.ind_start().end()), i(A.inds().begin(), A.inds().end()); const std::vector<typename M::value_type> v(A.vals().begin(), A.vals().end());
  bool empty = m0 && m0 < D.m; for (size_t a = 0; a < m0 && empty; ++a) for (size_t b = 0; b < m0; ++b) if (D.has(a, b)) { empty = false; break; }
  try { P.factorize(A, o, m0); } catch (std::exception &) { if (!empty) throw; P.clear(); return false; }   // MC64 refuses a leading block without entries
  CHECK(eqv(A.ind_start(), p, p.size()) && eqv(A.inds(), i, i.size()) && eqv(A.vals(), v, v.size()), "factorize changed the user's matrix");
  return true;
}
template <class T> static void go(Rng &r) {
  typedef HIF<T, int> H; typedef CRS<T, int> R; typedef CCS<T, int> C; H P; const int rounds = r.in(1, 3);
  for (int k = 0; k < rounds; ++k) {
    const bool herm = r.p(.4); const bool real = std::is_same<T, double>::value, hc = !real && r.p(.3); double cond; size_t m0; const Dense<T> A = gen<T>(r, herm, hc, cond, m0); if (hc) m0 = 0;
    const size_t n = A.m; Options o = opts(r); o.is_symm = real && herm && r.p(.5);   // is_symm with complex values: known finding
    if (o.is_symm) { m0 = 0; o.no_pre = 0; } show("A", A);
    ctx() << "m0 " << m0 << " symm " << o.is_symm << " kappa " << o.kappa << " rho " << o.rho << " c_d " << o.c_d << " dense_thres " << o.dense_thres << " N " << o.N << " reorder " << o.reorder << " pre_scale " << o.pre_scale << " symm_pre_lvls " << o.symm_pre_lvls << " pivot " << o.pivot << " gamma " << o.gamma << " beta " << o.beta << " no_pre " << o.no_pre << " alpha " << o.alpha_L << " nzp " << o.nzp_thres << " threads " << o.threads << "\n";
    if (!(r.p(.5) ? factorize<R>(r, P, A, o, m0) : factorize<C>(r, P, A, o, m0))) continue;
    // bookkeeping
    CHECK(P.nrows() == n && P.ncols() == n, "reported size"); CHECK(!P.empty(), "empty after factorization");
    size_t rest = n, nz = 0, ef = 0, L = 0; for (auto &q : P.precs()) {
      CHECK(q.n == rest && q.m <= q.n, "level %zu: size %zu, expected %zu", L, (size_t)q.n, rest); const size_t m = q.m, s = q.n - m; ++L; rest = s;
      CHECK(q.p.size() == q.n && q.q.size() == q.n && q.p_inv.size() == q.n && q.q_inv.size() == q.n && q.s.size() == q.n && q.t.size() == q.n && q.d_B.size() >= m, "level arrays");
      for (size_t i = 0; i < q.n; ++i) CHECK(q.p[i] >= 0 && (size_t)q.p[i] < q.n && (size_t)q.p_inv[q.p[i]] == i && q.q[i] >= 0 && (size_t)q.q[i] < q.n && (size_t)q.q_inv[q.q[i]] == i, "level permutation");
      for (size_t i = 0; i < q.n; ++i) CHECK(std::isfinite(q.s[i]) && q.s[i] > 0 && std::isfinite(q.t[i]) && q.t[i] > 0, "level scaling");
      nz += q.L_B.nnz() + q.U_B.nnz() + q.E.nnz() + q.F.nnz() + m; ef += q.E.nnz() + q.F.nnz();
      if (&q == &P.precs().back()) { const bool dd = !q.dense_solver.empty(), sd = !q.symm_dense_solver.empty(); CHECK((dd || sd) == (s > 0) || s == 0, "dense last level"); if (s) { nz += s * s; CHECK(!(dd && sd), "two dense solvers"); } L += dd + sd; }
      else CHECK(q.dense_solver.empty() && q.symm_dense_solver.empty(), "dense level inside the hierarchy");
    }
    CHECK(P.levels() == L, "levels() is %zu, stored %zu", (size_t)P.levels(), L); CHECK(P.nnz() == nz, "nnz() is %zu, stored %zu", (size_t)P.nnz(), nz); CHECK(P.nnz_ef() == ef && P.nnz_ldu() == nz - ef, "nnz of the off-diagonal blocks");
    CHECK(P.schur_size() == rest, "schur_size() is %zu, stored %zu", (size_t)P.schur_size(), rest); CHECK(P.schur_rank() == rest && P.rank() == n, "rank %zu of %zu, last level %zu of %zu", (size_t)P.rank(), n, (size_t)P.schur_rank(), rest);
    CHECK(P.stats(5) == 0, "entries dropped by the space limit although dropping is disabled");
    // the solves
    const double tol = 1e-9 * cond;
    for (int w = 0; w < 3; ++w) {
      const bool tr = r.p(.5); std::vector<T> x(n), b(n, T(0)); for (auto &z : x) z = Rnd<T>::v(r); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { if (tr) b[j] += cj(A(i, j)) * x[i]; else b[i] += A(i, j) * x[j]; }
      Array<T> B = arr(b), X(n); for (auto &z : X) z = T(7);
      if (w == 2) { Array<T> Y = arr(x); P.mmultiply(Y, X, tr); closeto(X, B, n, tol, tr ? "transposed product" : "product"); CHECK(eqv(Y, x, n), "product changed its input"); }
      else { P.solve(B, X, tr); Array<T> Y = arr(x); closeto(X, Y, n, tol, tr ? "transposed solve" : "solve"); CHECK(eqv(B, b, n), "solve changed the right-hand side"); }
    }
    // an earlier factorization must leave no trace
    if (k && r.p(.5)) { H Q; Q.factorize(to_hif<R>(A), o, m0); P.factorize(to_hif<R>(A), o, m0); CHECK(P.nnz() == Q.nnz() && P.levels() == Q.levels() && P.rank() == Q.rank(), "refactorized object differs from a fresh one"); for (int e = 0; e < 6; ++e) CHECK(P.stats(e) == Q.stats(e), "statistics of a refactorized object differ from a fresh one");
      std::vector<T> b(n); for (auto &z : b) z = Rnd<T>::v(r); Array<T> B = arr(b), X(n), Y(n); P.solve(B, X); Q.solve(B, Y); CHECK(eqv(X, Y, n), "solution of a refactorized object differs from a fresh one"); }
    if (r.p(.2)) { P.clear(); CHECK(P.empty() && P.levels() == 0 && P.nnz() == 0 && P.rank() == 0, "clear"); }
  }
  nontrivial(hash(ctx().str()));
}
int main(int argc, char **argv) {
  if (getenv("P18D")) return nat::run(argc, argv, Cases{{"double", go<double>}}); if (getenv("P18Z")) return nat::run(argc, argv, Cases{{"complex", go<Z>}}); return nat::run(argc, argv, Cases{{"double", go<double>}, {"complex", go<Z>}});
}
