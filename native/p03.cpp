// P03 bounded contract harness: unit triangular solves against dense substitution in exact (small integer) arithmetic.
#include "nathif.hpp"
using namespace nat; using namespace hif;
template <class T> static std::vector<T> ref(const Dense<T> &d, std::vector<T> b, size_t nr, bool upper, bool tran) {
  const long n = (long)d.m; const bool fwd = upper == tran;
  for (long q = 0; q < n; ++q) { const long i = fwd ? q : n - 1 - q;
    for (long j = 0; j < n; ++j) if (j != i) { const bool h = tran ? d.has(j, i) : d.has(i, j); if (!h) continue;
      const T v = tran ? cj(d(j, i)) : d(i, j); for (size_t k = 0; k < nr; ++k) b[i * nr + k] -= v * b[j * nr + k]; } }
  return b;
}
template <class CS, class Y> static void run1(Rng &r, const Dense<typename CS::value_type> &d, bool upper) {
  typedef typename CS::value_type T;
  CS A = to_hif<CS>(d); const size_t n = d.m; const int N = 3;
  const auto p0 = std::vector<typename CS::indptr_type>(A.ind_start().begin(), A.ind_start().end()); const auto v0 = std::vector<T>(A.vals().begin(), A.vals().end());
  Dense<Y> dy(n, n); for (size_t i = 0; i < n * n; ++i) { dy.a[i] = Y(d.a[i]); dy.nz[i] = d.nz[i]; }
  const char *cs = CS::ROW_MAJOR ? "CRS" : "CCS";
  for (int t = 0; t < 2; ++t) {
    { auto b = rand_vec<Y>(r, n); Array<Y> y = arr(b);
      if (upper) { if (t) A.solve_as_strict_upper_tran(y); else A.solve_as_strict_upper(y); } else { if (t) A.solve_as_strict_lower_tran(y); else A.solve_as_strict_lower(y); }
      auto x = ref(dy, b, 1, upper, t); CHECK(eqv(y, x, n), "%s strict_%s%s: rhs %s: got %s expected %s", cs, upper ? "upper" : "lower", t ? "_tran" : "", str(b, n).c_str(), str(y, n).c_str(), str(x, n).c_str()); }
    { auto b = rand_vec<Y>(r, n * N); Array<std::array<Y, N>> y(n); for (size_t i = 0; i < n * N; ++i) y[i / N][i % N] = b[i];
      if (upper) { if (t) A.solve_as_strict_upper_mrhs_tran(y); else A.solve_as_strict_upper_mrhs(y); } else { if (t) A.solve_as_strict_lower_mrhs_tran(y); else A.solve_as_strict_lower_mrhs(y); }
      auto x = ref(dy, b, N, upper, t); for (size_t i = 0; i < n * N; ++i) CHECK(y[i / N][i % N] == x[i], "%s strict_%s_mrhs%s: wrong entry row %zu rhs %zu", cs, upper ? "upper" : "lower", t ? "_tran" : "", i / N, i % N); }
  }
  CHECK(eqv(A.ind_start(), p0, p0.size()) && eqv(A.vals(), v0, v0.size()), "matrix modified by a solve");
}
template <class T, class Y> static void go(Rng &r, uint64_t c) {
  size_t n = r.in(0, sizeof(Y) < 8 ? 6 : 9); if (c % 13 == 5) n = r.in(9, 13); double p = r.d(0, 1); if (c % 5 == 0) p = 1;
  if (sizeof(typename ValueTypeTrait<Y>::value_type) < 8 && n > 7) n = 7;
  for (int up = 0; up < 2; ++up) {
    Dense<T> d(n, n);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if ((up ? j > i : j < i) && r.p(p)) { T v = Val<T>::get(r); if (n > 6) v = T(std::real(v) > 2 ? 1 : std::real(v) < -2 ? -1 : v); d.set(i, j, v); }
    show(up ? "U" : "L", d);
    run1<CRS<T, int>, Y>(r, d, up); run1<CCS<T, int>, Y>(r, d, up);
  }
  if (n > 1) nontrivial(hash(ctx().str()));
}
int main(int argc, char **argv) {
  return nat::run(argc, argv, [](Rng &r, uint64_t c) {
    if (c % 4 == 3) go<std::complex<double>, std::complex<double>>(r, c); else if (c % 7 == 4) go<float, double>(r, c); else if (c % 7 == 2) go<float, float>(r, c); else go<double, double>(r, c); });
}
