// P09 bounded contract harness: single, transposed and multi-vector solves on random level structures, in any order on one object.
#include "nathier.hpp"
using namespace nat;
template <class T, class H, size_t N> static void mrhs(Rng &r, H &P, const Dense<T> &M, size_t n, size_t ld, T sc) {
  std::vector<std::vector<T>> X(N); Array<std::array<T, N>> b(n), x(n), b0(n); for (size_t k = 0; k < N; ++k) { X[k] = rand_vec<T>(r, n); }
  // scale of the last level by the requested dimension is applied by a dense inverse computed for that dimension, see ref()
  std::vector<std::vector<T>> B; for (size_t k = 0; k < N; ++k) B.push_back(mv(M, X[k])); (void)sc;
  for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < N; ++k) { b[i][k] = B[k][i]; x[i][k] = T(33); } for (size_t i = 0; i < n; ++i) b0[i] = b[i];
  P.solve_mrhs(b, x, ld);
  for (size_t k = 0; k < N; ++k) { std::vector<T> c(n); for (size_t i = 0; i < n; ++i) c[i] = x[i][k]; near(c, X[k], n, 1e-9, "multi-vector solve"); }
  for (size_t i = 0; i < n; ++i) CHECK(b[i] == b0[i], "multi-vector solve changed the right-hand side");
}
template <class T> static void go(Rng &r) {
  HH<T> H; const size_t n = r.in(1, 9); const bool herm = r.p(.3); Dense<T> M = build<T>(r, H.precs(), n, r.in(0, 3), herm);
  // matrix of the operator for dimension argument ld: the last level is divided by f(ld)
  const int ops = r.in(1, 6);
  for (int o = 0; o < ops; ++o) {
    const size_t ld = 3 * r.in(0, 2);
    const int w = r.in(0, 7); ctx() << "op " << w << "\n"; const std::vector<T> x = rand_vec<T>(r, n);
    if (w <= 2) { auto b = mv(M, x); Array<T> B = arr(b), X(n); for (auto &z : X) z = T(44); H.solve(B, X, false, ld); near(X, x, n, 1e-9, "solve"); CHECK(eqv(B, b, n), "solve changed the right-hand side"); }
    else if (w <= 4) { auto b = mv(M, x, true); Array<T> B = arr(b), X(n); for (auto &z : X) z = T(44); H.solve(B, X, true, ld); near(X, x, n, 1e-9, "transposed solve"); CHECK(eqv(B, b, n), "transposed solve changed the right-hand side"); }
    else { const T sc(1); const int N = r.in(1, 4); if (N == 1) mrhs<T, HH<T>, 1>(r, H, M, n, ld, sc); else if (N == 2) mrhs<T, HH<T>, 2>(r, H, M, n, ld, sc); else if (N == 3) mrhs<T, HH<T>, 3>(r, H, M, n, ld, sc); else mrhs<T, HH<T>, 5>(r, H, M, n, ld, sc); }
    if (H.precs().back().m != H.precs().back().n && r.p(.3)) {   // the last-level dimension is passed on unchanged: compare with the operator whose last level is scaled accordingly
      const size_t q = r.in(0, 5); auto b = mv(M, x); Array<T> B = arr(b), X0(n), X1(n); typename HH<T>::precs_type &P = H.precs(); const bool tr = r.p(.5);
      H.solve(B, X0, tr, q);
      auto sv = [&](Dense<T> &A, T f) { for (auto &z : A.a) z *= f; }; const T f = ExactDense<T>::f(q);
      auto &D = P.back().dense_solver; auto &S = P.back().symm_dense_solver; sv(D.Ai, f); sv(S.Ai, f); H.solve(B, X1, tr, 0); sv(D.Ai, T(1) / f); sv(S.Ai, T(1) / f);
      CHECK(eqv(X0, X1, n), "requested last-level dimension not passed on");
    }
  }
  size_t nn = 0; for (auto &p : H.precs()) nn += p.n; CHECK(compute_prec_work_space(H.precs().cbegin(), H.precs().cend()) == nn, "work space is not the sum of the level sizes");
  CHECK(H.levels() == H.precs().size() + (H.precs().back().m != H.precs().back().n), "levels");
}
int main(int argc, char **argv) {
  return nat::run(argc, argv, Cases{{"double", [](Rng &r) { go<double>(r); nontrivial(hash(ctx().str())); }}, {"complex", [](Rng &r) { go<Z>(r); nontrivial(hash(ctx().str())); }}});
}
