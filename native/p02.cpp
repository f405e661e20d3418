// P02 bounded contract harness: products against the dense definition in exact (small integer) arithmetic.
#include "nathif.hpp"
#include <omp.h>
#include "hif/utils/mt_mv.hpp"
using namespace nat; using namespace hif;
template <class T> static std::vector<T> ref(const Dense<T> &d, const std::vector<T> &x, size_t nr, bool t) {
  std::vector<T> y((t ? d.n : d.m) * nr, T(0));
  for (size_t i = 0; i < d.m; ++i) for (size_t j = 0; j < d.n; ++j) if (d.has(i, j)) for (size_t k = 0; k < nr; ++k) {
    if (t) y[j * nr + k] += cj(d(i, j)) * x[i * nr + k]; else y[i * nr + k] += d(i, j) * x[j * nr + k];
  }
  return y;
}
template <class CS> static void run1(Rng &r, const Dense<typename CS::value_type> &d) {
  typedef typename CS::value_type T;
  CS A = to_hif<CS>(d, &r); const auto p0 = std::vector<typename CS::indptr_type>(A.ind_start().begin(), A.ind_start().end());
  const auto v0 = std::vector<T>(A.vals().begin(), A.vals().end());
  for (int t = 0; t < 2; ++t) {
    const size_t nx = t ? d.m : d.n, ny = t ? d.n : d.m;
    { auto x = rand_vec<T>(r, nx); Array<T> X = arr(x), Y(ny, T(77)); A.multiply(X, Y, (bool)t); auto y = ref(d, x, 1, t);
      CHECK(eqv(Y, y, ny), "multiply(tran=%d): got %s expected %s", t, str(Y, ny).c_str(), str(y, ny).c_str()); CHECK(eqv(X, x, nx), "input vector modified");
      if (!t) { std::fill(Y.begin(), Y.end(), T(77)); mt::multiply_nt(A, X, Y); CHECK(eqv(Y, y, ny), "mt::multiply_nt: wrong result");
        std::fill(Y.begin(), Y.end(), T(77)); mt::multiply_nt_low(A, X.data(), Y.data()); CHECK(eqv(Y, y, ny), "mt::multiply_nt_low: wrong result"); } }
    { auto x = rand_vec<T>(r, nx * 3); Array<std::array<T, 3>> X(nx), Y(ny); for (size_t i = 0; i < nx * 3; ++i) X[i / 3][i % 3] = x[i]; for (size_t i = 0; i < ny; ++i) Y[i].fill(T(77));
      A.multiply_mrhs(X, Y, (bool)t); auto y = ref(d, x, 3, t);
      for (size_t i = 0; i < ny * 3; ++i) CHECK(Y[i / 3][i % 3] == y[i], "multiply_mrhs(tran=%d): wrong entry row %zu rhs %zu", t, i / 3, i % 3);
      if (!t && nx && ny) { for (size_t i = 0; i < ny; ++i) Y[i].fill(T(77)); mt::multiply_mrhs_nt(A, X, Y); for (size_t i = 0; i < ny * 3; ++i) CHECK(Y[i / 3][i % 3] == y[i], "mt::multiply_mrhs_nt: wrong entry row %zu rhs %zu", i / 3, i % 3);
        for (size_t i = 0; i < ny; ++i) Y[i].fill(T(77)); mt::multiply_mrhs_nt_low<3>(A, X[0].data(), Y[0].data()); for (size_t i = 0; i < ny * 3; ++i) CHECK(Y[i / 3][i % 3] == y[i], "mt::multiply_mrhs_nt_low: wrong entry"); } }
  }
  CHECK(eqv(A.ind_start(), p0, p0.size()) && eqv(A.vals(), v0, v0.size()), "matrix modified by a product");
}
template <class T> static void range(Rng &r, const Dense<T> &d) {
  typedef CRS<T, int> CS; CS A = to_hif<CS>(d, &r); auto x = rand_vec<T>(r, d.n); auto y = ref(d, x, 1, false);
  size_t a = r.in(0, (int)d.m), l = r.in(0, (int)(d.m - a)); Array<T> X = arr(x); std::vector<T> Y(d.m + 1, T(77));
  A.multiply_nt_low(X.data(), a, l, Y.data());
  for (size_t i = 0; i < d.m; ++i) CHECK(Y[i] == (i >= a && i < a + l ? y[i] : T(77)), "partial range [%zu,+%zu): row %zu", a, l, i);
  if (a < d.m) { Array<T> Z(d.m, T(77)); A.multiply_nt(X, a, l, Z); for (size_t i = 0; i < d.m; ++i) CHECK(Z[i] == (i >= a && i < a + l ? y[i] : T(77)), "partial range (array): row %zu", i); }
}
template <class T> static void go(Rng &r, uint64_t c) {
  size_t m = r.in(0, 9), n = r.in(0, 9); double p = r.d(0, 1);
  if (c % 50 == 7) { m = r.in(1000, 1100); n = r.in(1, 40); p = 0.2; } else if (c % 11 == 3) { m = r.in(1, 12); n = r.in(24, 60); p = 1; }
  int nth = r.in(1, 4);
  auto d = rand_dense<T>(r, m, n, p); if (m * n < 2000) show("A", d); ctx() << "threads " << nth << "\n";
  mt::get_nthreads(nth);
  run1<CRS<T, int>>(r, d); run1<CCS<T, int>>(r, d); range<T>(r, d);
  if (m && n) nontrivial(hash(ctx().str()));
}
static void part(Rng &r) {
  size_t n = r.in(0, 200); int T = r.in(1, 16); ctx() << "partition n " << n << " threads " << T << "\n"; size_t e = 0;
  for (int t = 0; t < T; ++t) { auto p = mt::uniform_partition(n, T, t); CHECK(p.first == e && p.second >= p.first, "uniform_partition(%zu,%d,%d) = [%zu,%zu), previous end %zu", n, T, t, p.first, p.second, e); e = p.second; }
  CHECK(e == n, "uniform_partition(%zu,%d) covers only %zu", n, T, e);
}
int main(int argc, char **argv) {
  return nat::run(argc, argv, [](Rng &r, uint64_t c) { if (c % 3 == 2) go<std::complex<double>>(r, c); else if (c % 7 == 4) go<float>(r, c); else go<double>(r, c); part(r); });
}
