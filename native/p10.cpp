// P10 bounded contract harness: products with the preconditioner on random level structures, mixed with solves on one object.
#include "nathier.hpp"
using namespace nat;
template <class T> static void go(Rng &r) {
  HH<T> H; const size_t n = r.in(1, 9); const bool herm = r.p(.3); Dense<T> M = build<T>(r, H.precs(), n, r.in(0, 3), herm);
  const int ops = r.in(1, 6);
  for (int o = 0; o < ops; ++o) {
    const size_t ld = 3 * r.in(0, 2); const int w = r.in(0, 7); ctx() << "op " << w << "\n"; const std::vector<T> x = rand_vec<T>(r, n); const bool tr = w & 1;
    Array<T> X = arr(x), Y(n), Z2(n); for (size_t i = 0; i < n; ++i) Y[i] = T(44), Z2[i] = T(55);
    if (w <= 3) { auto b = mv(M, x, tr); H.mmultiply(X, Y, tr, ld); near(Y, b, n, 1e-9, tr ? "transposed product" : "product"); CHECK(eqv(X, x, n), "product changed its input"); }
    else if (w <= 5) { const size_t q = r.in(0, 5); H.mmultiply(X, Y, tr, q); CHECK(eqv(X, x, n), "product changed its input"); std::vector<T> y(n); for (size_t i = 0; i < n; ++i) y[i] = Y[i]; H.solve(Y, Z2, tr, q); near(Z2, x, n, 1e-8, tr ? "transposed solve of the transposed product" : "solve of the product"); CHECK(eqv(Y, y, n), "solve changed its right-hand side"); }
    else { const size_t q = r.in(0, 5); H.solve(X, Y, tr, q); H.mmultiply(Y, Z2, tr, q); near(Z2, x, n, 1e-8, tr ? "transposed product of the transposed solve" : "product of the solve"); }
    if (H.precs().back().m != H.precs().back().n && r.p(.3)) {
      const size_t q = r.in(0, 5); Array<T> Y0(n), Y1(n); H.mmultiply(X, Y0, tr, q);
      auto sv = [&](Dense<T> &A, T f) { for (auto &z : A.a) z *= f; }; const T f = ExactDense<T>::f(q); auto &D = H.precs().back().dense_solver; auto &S = H.precs().back().symm_dense_solver;
      sv(D.A, T(1) / f); sv(S.A, T(1) / f); H.mmultiply(X, Y1, tr, 0); sv(D.A, f); sv(S.A, f);
      CHECK(eqv(Y0, Y1, n), "requested last-level dimension not passed on");
    }
  }
}
int main(int argc, char **argv) {
  return nat::run(argc, argv, Cases{{"double", [](Rng &r) { go<double>(r); nontrivial(hash(ctx().str())); }}, {"complex", [](Rng &r) { go<Z>(r); nontrivial(hash(ctx().str())); }}});
}
