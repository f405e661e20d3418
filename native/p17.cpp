// P17 bounded contract harness: permuted diagonal, E and F blocks, Schur complement (sequential and threaded) against the dense definition, exact integer arithmetic.
#include "nathif.hpp"
#include "hif/alg/factor.hpp"
using namespace nat; using namespace hif;
template <class T> struct In { size_t n, m; Dense<T> d; std::vector<double> s, t; std::vector<int> p, q; Array<double> S, U; BiPermMatrix<int> P, Q; };
static std::vector<int> rperm(Rng &r, size_t n) { std::vector<int> p(n); for (size_t i = 0; i < n; ++i) p[i] = i; if (!r.p(0.15)) for (size_t i = n; i > 1; --i) std::swap(p[i - 1], p[r.u() % i]); return p; }
template <class T> static void gen(Rng &r, In<T> &x, size_t n, size_t m, double dens, bool sh) {
  x.n = n; x.m = m; x.d = rand_dense<T>(r, n, n, dens); if (sh) show("A", x.d);
  x.s.resize(n); x.t.resize(n); for (auto &v : x.s) v = r.in(1, 4); for (auto &v : x.t) v = r.in(1, 4);
  x.p = rperm(r, n); x.q = rperm(r, n); x.S = arr(x.s); x.U = arr(x.t); x.P.resize(n); x.Q.resize(n);
  for (size_t i = 0; i < n; ++i) { x.P[i] = x.p[i]; x.Q[i] = x.q[i]; } x.P.build_inv(); x.Q.build_inv();
  if (sh) { showv("s", x.s, n); showv("t", x.t, n); showv("p", x.p, n); showv("q", x.q, n); } ctx() << "n=" << n << " m=" << m << "\n";
}
template <class T> static void unchanged(const In<T> &x) { for (size_t i = 0; i < x.n; ++i) CHECK(x.P[i] == x.p[i] && x.Q[i] == x.q[i] && x.P.inv(x.p[i]) == (int)i && x.Q.inv(x.q[i]) == (int)i && x.S[i] == x.s[i] && x.U[i] == x.t[i], "permutation or scaling changed"); }
template <class T> static Dense<T> block(const In<T> &x, size_t i0, size_t i1, size_t j0, size_t j1) {
  Dense<T> r(i1 - i0, j1 - j0);
  for (size_t i = i0; i < i1; ++i) for (size_t j = j0; j < j1; ++j) if (x.d.has(x.p[i], x.q[j])) r.set(i - i0, j - j0, x.s[x.p[i]] * x.d(x.p[i], x.q[j]) * x.t[x.q[j]]);
  return r;
}
// an exactly zero block may come back without stored entries
template <class M, class T> static void sameblk(const M &A, const Dense<T> &e, const char *w) {
  CHECK(A.nrows() == e.m && A.ncols() == e.n, "%s: dimensions %zux%zu expected %zux%zu", w, (size_t)A.nrows(), (size_t)A.ncols(), e.m, e.n);
  const size_t N = M::ROW_MAJOR ? e.m : e.n;
  if (!N && A.ind_start().size() <= 1) return;
  same(dense_of(A, w), e, w);
}
template <class T> static void blocks(Rng &r) {
  In<T> x; const size_t n = r.in(0, 9); gen(r, x, n, r.in(0, (int)n), r.p(0.2) ? 1. : r.d(0, 1), true); const size_t m = x.m;
  CRS<T, int> A = to_hif<CRS<T, int>>(x.d); CCS<T, int> C = to_hif<CCS<T, int>>(x.d);
  const size_t m0 = r.p(0.3) ? r.in(0, (int)m) : 0;
  auto D = internal::extract_perm_diag(x.S, C, x.U, m, x.P, x.Q, m0); CHECK(D.size() == m, "diagonal has size %zu", (size_t)D.size());
  for (size_t i = 0; i < (m0 ? m0 : m); ++i) CHECK(D[i] == x.s[x.p[i]] * x.d(x.p[i], x.q[i]) * x.t[x.q[i]], "permuted diagonal differs at %zu", i);
  sameblk(internal::extract_E(x.S, A, x.U, m, x.P, x.Q), block(x, m, n, 0, m), "E");
  std::vector<T> buf(n + 1, T(-77)); const size_t bl = buf.size();
  sameblk(internal::extract_F(x.S, C, x.U, m, x.P, x.Q, buf), block(x, 0, m, m, n), "F");
  CHECK(buf.size() == bl && buf[n] == T(-77), "buffer overrun");
  unchanged(x); same(dense_of(A, "A"), x.d, "A"); same(dense_of(C, "A"), x.d, "A");
  if (n) nontrivial(hash(ctx().str()));
}
template <class T> static void schur(Rng &r, bool big) {
  In<T> x; const size_t n = big ? r.in(290, 420) : r.in(0, 9), N = big ? r.in(199, 215) : r.in(0, (int)n), m = n - N; gen(r, x, n, m, big ? 0.02 : r.p(0.2) ? 1. : r.d(0, 1), !big);
  const double dd = big ? 10300. / (N * (double)m) : r.d(0, 1); auto L = rand_dense<T>(r, N, m, dd), F = rand_dense<T>(r, m, N, big ? dd : r.d(0, 1)); if (!big) { show("L_E", L); show("U_F", F); }
  auto d = rand_vec<T>(r, n); Array<T> D = arr(d);
  CRS<T, int> A = to_hif<CRS<T, int>>(x.d), LE = to_hif<CRS<T, int>>(L), UF = to_hif<CRS<T, int>>(F);
  if (big) ctx() << "nnz " << LE.nnz() << " " << UF.nnz() << " seed-derived\n";
  Dense<T> e = block(x, m, n, m, n);
  for (size_t i = 0; i < N; ++i) for (size_t k = 0; k < m; ++k) if (L.has(i, k)) for (size_t j = 0; j < N; ++j) if (F.has(k, j)) e.set(i, j, e(i, j) - L(i, k) * d[k] * F(k, j));
  SparseVector<T, int> buf(n); for (size_t k = 0; k < n; ++k) if (r.p(0.5)) buf.push_back(r.in(0, (int)n - 1), r.in(0, (int)n - 1)); for (auto &v : buf.vals()) v = T(-7);
  const int th = big ? r.in(1, 5) : r.in(1, 3); ctx() << "threads " << th << "\n";
  for (int k = 0; k < (big ? 1 : 2); ++k) { // the work space is reused; a fresh one for the next matrix as the steps repeat
    if (k) { buf.restore_cur_state(); buf = SparseVector<T, int>(n); }
    CRS<T, int> S = k == 0 ? mt::compute_Schur_simple(x.S, A, x.U, x.P, x.Q, m, LE, D, UF, buf, th) : hif::compute_Schur_simple(x.S, A, x.U, x.P, x.Q, m, LE, D, UF, buf);
    if (!N) CHECK(S.nrows() == 0 && S.nnz() == 0, "Schur complement of a full block is not empty"); else sameblk(S, e, "S");
  }
  unchanged(x); same(dense_of(A, "A"), x.d, "A"); same(dense_of(LE, "L_E"), L, "L_E"); same(dense_of(UF, "U_F"), F, "U_F"); CHECK(eqv(D, d, n), "d changed");
  if (n) nontrivial(hash(ctx().str()));
}
template <class T> static void tails(Rng &r) {
  // factors with deferred rows/columns: offset indices are shifted by the number of deferrals
  const size_t n = r.in(1, 9), m = r.in(0, (int)n), df = r.in(0, 3); if (n < m + df && 0) return; auto U = rand_dense<T>(r, m, n, r.d(0, 1)), L = rand_dense<T>(r, n, m, r.d(0, 1)); show("U", U); show("L", L); ctx() << "m=" << m << " deferrals=" << df << "\n";
  if (df > n) return;
  auto shift = [&](const Dense<T> &d, bool rows) { Dense<T> e(rows ? d.m : 2 * n, rows ? 2 * n : d.n); for (size_t i = 0; i < d.m; ++i) for (size_t j = 0; j < d.n; ++j) if (d.has(i, j)) { size_t k = rows ? j : i; if (k >= m) k += df; e.set(rows ? i : k, rows ? k : j, d(i, j)); } return e; };
  auto Us = shift(U, true), Ls = shift(L, false); CRS<T, int> HU = to_hif<CRS<T, int>>(Us); CCS<T, int> HL = to_hif<CCS<T, int>>(Ls);
  Array<int> us(m), ls(m); for (size_t i = 0; i < m; ++i) { int k = HU.row_start()[i]; while (k < HU.row_start()[i + 1] && (size_t)HU.col_ind()[k] < m) ++k; us[i] = k; k = HL.col_start()[i]; while (k < HL.col_start()[i + 1] && (size_t)HL.row_ind()[k] < m) ++k; ls[i] = k; }
  internal::compress_tails(HU, HL, us, ls, m, df); same(dense_of(HU, "U"), U, "U"); same(dense_of(HL, "L"), L, "L"); nontrivial(hash(ctx().str()));
}
typedef std::complex<double> Z;
int main(int argc, char **argv) {
  return nat::run(argc, argv, [](Rng &r, uint64_t c) {
    switch (c % 40) {
      case 0: ctx() << "threads\n"; schur<double>(r, true); break;
      case 20: ctx() << "threads complex\n"; schur<Z>(r, true); break;
      default: switch (c % 6) { case 0: blocks<double>(r); break; case 1: blocks<Z>(r); break; case 2: case 3: schur<double>(r, false); break; case 4: schur<Z>(r, false); break; default: tails<double>(r); }
    } });
}
