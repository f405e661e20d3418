// P05 bounded contract harness: validity of wrapped and owned matrices against the definition; exact-size guarded arrays.
#include "nathif.hpp"
using namespace nat; using namespace hif;
template <class F> static bool rejects(F f) { try { f(); } catch (const std::exception &) { return true; } return false; }
template <class Ip, class Ix> static bool valid(const std::vector<Ip> &p, const std::vector<Ix> &x, size_t N, size_t K) {
  if (p[0] != 0 || p[N] < 0 || (size_t)p[N] > x.size()) return false;
  for (size_t i = 0; i < N; ++i) if (p[i + 1] < p[i]) return false;
  for (size_t i = 0; i < N; ++i) for (Ip k = p[i]; k < p[i + 1]; ++k) { if (x[k] < 0 || (size_t)x[k] >= K) return false; if (k > p[i] && x[k] <= x[k - 1]) return false; }
  return true;
}
template <class M> struct W { template <class... A> static M go(A... a) { return sel(std::integral_constant<bool, M::ROW_MAJOR>(), a...); }
  template <class... A> static M sel(std::true_type, A... a) { return wrap_const_crs(a...); } template <class... A> static M sel(std::false_type, A... a) { return wrap_const_ccs(a...); } };
template <class T> struct Heap { T *p; size_t n; Heap(const std::vector<T> &v) : p(new T[v.size()]), n(v.size()) { std::copy(v.begin(), v.end(), p); } ~Heap() { delete[] p; } Heap(const Heap &) = delete; };
template <class M, class T, class Ix, class Ip> static void go(Rng &r) {
  const size_t N = r.in(0, 7), K = r.in(0, 7); std::vector<Ip> p(N + 1, 0); std::vector<Ix> x;
  for (size_t i = 0; i < N; ++i) { for (size_t j = 0; j < K; ++j) if (r.p(.45)) x.push_back(j); p[i + 1] = x.size(); }
  for (int k = r.p(.25) ? 0 : r.in(1, 2); k > 0; --k) {            // inject faults, some of them harmless
    switch (r.in(0, 8)) {
      case 0: if (x.size()) x[r.u() % x.size()] = r.p(.5) ? -1 - r.in(0, 2) : (int)K + r.in(0, 2); break;
      case 1: if (x.size()) { const size_t a = r.p(.3) ? 0 : r.p(.5) ? x.size() - 1 : r.u() % x.size(); x[a] = r.in(-1, (int)K); } break;
      case 2: if (x.size() > 1) { const size_t a = r.u() % (x.size() - 1); std::swap(x[a], x[a + 1]); } break;
      case 3: if (x.size() > 1) { const size_t a = r.u() % (x.size() - 1); x[a + 1] = x[a]; } break;
      case 4: p[r.u() % p.size()] += r.p(.5) ? 1 : -1; break;
      case 5: p[0] = r.in(-2, 2); break;
      case 6: p[N] += r.in(-3, 3); break;
      case 7: p[r.u() % p.size()] = r.in(-2, (int)x.size() + 4); break;
      case 8: if (N && x.size()) { const size_t i = r.u() % N; if (p[i + 1] > p[i] && p[i] >= 0 && (size_t)p[i + 1] <= x.size()) x[r.p(.5) ? p[i] : p[i + 1] - 1] = r.p(.5) ? -1 : (int)K; } break;
    }
  }
  ctx() << (M::ROW_MAJOR ? "CRS" : "CCS") << " primary " << N << " other " << K << "\nstart " << str(p, p.size()) << "\nindices " << str(x, x.size()) << "\n";
  const bool ok = valid(p, x, N, K); ctx() << "valid " << ok << "\n"; std::vector<T> v(x.size(), T(1));
  const size_t nr = M::ROW_MAJOR ? N : K, nc = M::ROW_MAJOR ? K : N;
  { // owned arrays
    M A(nr, nc); A.ind_start().resize(N + 1); std::copy(p.begin(), p.end(), A.ind_start().begin()); A.inds() = arr(x); A.vals() = arr(v); 
    if (x.empty()) { Ix dx; T dv; A.inds() = Array<Ix>(0, &dx, true); A.vals() = Array<T>(0, &dv, true); }
    const bool rj = rejects([&] { A.check_validity(); }); CHECK(rj == !ok, "check_validity %s this matrix", rj ? "rejects" : "accepts");
    CHECK(eqv(A.ind_start(), p, N + 1) && eqv(A.inds(), x, x.size()), "check_validity modified the matrix");
    if (x.size()) { A.vals().resize(x.size() - 1); const bool rj2 = rejects([&] { A.check_validity(); }); CHECK(rj2 || (ok && (size_t)p[N] < x.size()), "value array shorter than the entries accepted"); }
  }
  if (p[N] - p[0] >= 0 && (size_t)(p[N] - p[0]) <= x.size() || p[N] < 0) { // wrapped user arrays, exactly as long as the start array says
    std::vector<Ix> y(x.begin(), x.begin() + (p[N] - p[0] >= 0 ? std::min<size_t>(x.size(), p[N] - p[0]) : 0)); const bool ok2 = p[N] >= 0 && valid(p, y, N, K);
    Heap<Ip> hp(p); Heap<Ix> hx(y); Heap<T> hv(std::vector<T>(y.size(), T(1)));
    const bool rj = rejects([&] { M A = W<M>::go(nr, nc, (const Ip *)hp.p, (const Ix *)hx.p, (const T *)hv.p, true);
      CHECK(A.nrows() == nr && A.ncols() == nc && A.ind_start().data() == hp.p && A.inds().data() == hx.p && A.vals().data() == hv.p, "wrapped matrix does not refer to the given arrays"); CHECK(A.nnz() == (size_t)p[N], "nnz"); });
    CHECK(rj == !ok2, "wrapping with checks %s this matrix", rj ? "rejects" : "accepts");
    if (ok2) { M A = W<M>::go(nr, nc, (const Ip *)hp.p, (const Ix *)hx.p, (const T *)hv.p, false); CHECK(A.nnz() == (size_t)p[N], "nnz"); }
    for (size_t i = 0; i <= N; ++i) CHECK(hp.p[i] == p[i], "user start array modified"); for (size_t i = 0; i < y.size(); ++i) CHECK(hx.p[i] == y[i] && hv.p[i] == T(1), "user arrays modified");
  }
  nontrivial(hash(ctx().str()));
}
int main(int c, char **v) {
  return run(c, v, {{"crs", go<CRS<double, int>, double, int, std::ptrdiff_t>}, {"ccs", go<CCS<double, int>, double, int, std::ptrdiff_t>}, {"crs<complex,long>", go<CRS<std::complex<double>, long>, std::complex<double>, long, std::ptrdiff_t>},
    {"ccs<float,int,int>", go<CCS<float, int, int>, float, int, int>}, {"crs<int,int>", go<CRS<double, int, int>, double, int, int>}});
}
