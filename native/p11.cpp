// P11 bounded contract harness: refinement loops with exact integer operators (compressed and callback products), and through the preconditioner class.
#include "nathif.hpp"
#include "hif/builder.hpp"
using namespace nat; using namespace hif;
typedef std::complex<double> Z;
// a preconditioner whose application is an exact dense product
template <class T> struct DenseM {
  Dense<T> M; bool wt = false; size_t wr = 0; mutable long calls = 0; mutable bool bad = false; std::vector<T> keep;
  size_t ncols() const { return M.n; } size_t nrows() const { return M.m; }
  std::vector<T> app(const std::vector<T> &b, bool tran) const { std::vector<T> y(M.n, T(0)); for (size_t i = 0; i < M.m; ++i) for (size_t j = 0; j < M.n; ++j) { if (tran) y[j] += cj(M(i, j)) * b[i]; else y[i] += M(i, j) * b[j]; } return y; }
  template <class B, class X> void solve(const B &b, X &x, bool tran, size_t r) const {
    ++calls; if (tran != wt || r != wr || b.size() != M.n || x.size() != M.n) bad = true;
    std::vector<T> v(b.size()); for (size_t i = 0; i < v.size(); ++i) v[i] = b[i]; auto y = app(v, tran); for (size_t i = 0; i < y.size(); ++i) x[i] = y[i];
  }
};
template <class T> static std::vector<T> mul(const Dense<T> &A, const std::vector<T> &x, bool tran) { std::vector<T> y(A.n, T(0)); for (size_t i = 0; i < A.m; ++i) for (size_t j = 0; j < A.n; ++j) { if (tran) y[j] += cj(A(i, j)) * x[i]; else y[i] += A(i, j) * x[j]; } return y; }
template <class T> static double n2(const std::vector<T> &v) { Array<T> a = arr(v); return norm2(a); }
template <class V> static V vec(const Array<typename V::value_type> &a) { return V(a.begin(), a.end()); }
template <class T, class M> static void go(Rng &r) {
  const size_t n = r.in(1, 7); Dense<T> d(n, n);
  DenseM<T> P; P.M = Dense<T>(n, n); P.wt = r.p(.5); P.wr = r.p(.5) ? (size_t)-1 : (size_t)r.in(0, n);
  const int style = r.in(0, 3); const bool diag = style == 0;
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
    if (i == j && diag) { const int e = r.in(0, 2); d.set(i, i, T(1 << e)); P.M.set(i, i, T(r.p(.7) ? 1.0 / (1 << e) : 0.5 / (1 << e))); }
    else if (!diag) { if (r.p(.6)) d.set(i, j, Val<T>::get(r)); if (r.p(.5)) P.M.set(i, j, style == 3 ? T(r.in(-1, 1) * .25) : T(r.in(-1, 1))); }
  }
  const int N = r.in(0, 6); auto b = rand_vec<T>(r, n); if (r.p(.1)) for (auto &z : b) z = T(0);
  ctx() << "tran " << P.wt << " N " << N << "\n"; show("A", d); show("M^-1", P.M); showv("b", b, n);
  M A = to_hif<M>(d); const auto b0 = b;
  std::function<void(const void *, const size_t, const char, void *, const char, const bool)> fn = [&](const void *x, const size_t k, const char, void *y, const char, const bool t) { std::vector<T> v((const T *)x, (const T *)x + k); auto w = mul(d, v, t); std::copy(w.begin(), w.end(), (T *)y); };
  // reference iterates and residual ratios
  std::vector<std::vector<T>> X(1, std::vector<T>(n, T(0))), R(1, b);
  for (int k = 0; k < 7; ++k) { auto z = P.app(R[k], P.wt), x = X[k]; for (size_t i = 0; i < n; ++i) x[i] += z[i]; X.push_back(x); auto y = mul(d, x, P.wt), q = b; for (size_t i = 0; i < n; ++i) q[i] -= y[i]; R.push_back(q); }
  const double bn = n2(b); std::vector<double> ratio; for (auto &q : R) ratio.push_back(bn == 0 ? 0 : n2(q) / bn);
  IterRefine<T> ir;
  auto once = [&](bool fun) {
    P.calls = 0; P.bad = false; Array<T> B = arr(b), x(n); for (auto &z : x) z = T(77);
    if (fun) { ir.iter_refine(P, fn, B, (size_t)N, x, P.wr, P.wt); } else ir.iter_refine(P, A, B, (size_t)N, x, P.wr, P.wt);
    const int K = N <= 1 ? 1 : N;
    CHECK(!P.bad, "preconditioner called with wrong sizes, transposition or last dimension"); CHECK(P.calls == K, "preconditioner applied %ld times, expected %d", P.calls, K);
    CHECK(eqv(x, X[K], n), "refined solution is not the iterate x_%d", K); CHECK(eqv(B, b0, n), "right-hand side changed");
  };
  once(false); once(true);
  // residual bounds: random, on the exact ratios, degenerate
  for (int q = 0; q < 4; ++q) {
    double be[2]; auto pick = [&]() { const int s = r.in(0, 3); return s == 0 ? ratio[r.in(1, 6)] : s == 1 ? r.d(0, 2) : s == 2 ? 1e-8 : std::nextafter(ratio[r.in(1, 6)], r.p(.5) ? 1e300 : 0.0); };
    be[0] = r.p(.2) ? 0.0 : pick(); be[1] = r.p(.3) ? 100.0 : pick();
    int wi = 0, wf = 0;
    if (N <= 1) { wi = 1; wf = -1; } else if (bn != 0) for (;;) { if (++wi >= N) { wf = -1; break; } if (ratio[wi] <= be[0]) break; if (ratio[wi] > be[1]) { wf = 1; break; } }
    P.calls = 0; P.bad = false; Array<T> B = arr(b), x(n); for (auto &z : x) z = T(55); std::vector<double> bc(be, be + 2);
    auto st = ir.iter_refine(P, A, B, (size_t)N, be, x, P.wr, P.wt);
    CHECK((int)st.first == wi && st.second == wf, "bounds %.17g %.17g: reported (%d,%d), truth (%d,%d)", be[0], be[1], (int)st.first, st.second, wi, wf);
    CHECK(st.first <= (size_t)(N <= 1 ? 1 : N), "more iterations than allowed"); CHECK(!P.bad, "preconditioner called with wrong arguments"); CHECK(P.calls == wi, "preconditioner applied %ld times for %d iterations", P.calls, wi);
    CHECK(eqv(x, X[wi], n), "solution is not the iterate x_%d", wi); CHECK(eqv(B, b0, n), "right-hand side changed"); CHECK(be[0] == bc[0] && be[1] == bc[1], "bounds changed");
    if (r.p(.3)) once(false);
  }
  same(d, dense_of(A, "matrix"), "matrix after refinement");
  if (r.p(.1)) ir.clear();
  if (r.p(.3)) once(false);
}
// through the public class; sizes change between factorizations on the same object
template <class T, class M> static void pub(Rng &r) {
  HIF<T, int> H; Options o = get_default_options(); o.verbose = VERBOSE_NONE;
  for (int rep = 0; rep < 2; ++rep) {
    const size_t n = r.in(2, 14); Dense<T> d(n, n); for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < n; ++j) if (i != j && r.p(.3)) d.set(i, j, Val<T>::get(r)); d.set(i, i, Val<T>::get(r) + T(r.in(6, 25))); }
    Dense<T> e = d; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (e.has(i, j) && r.p(.3)) e(i, j) += T(r.in(-1, 1) * .125);
    show("A", e); auto A = to_hif<M>(e), F = to_hif<M>(d); H.factorize(F, o);
    for (int q = 0; q < 3; ++q) {
      const bool tr = r.p(.5); const int N = r.in(0, 5); const size_t ld = r.p(.4) ? (size_t)-1 : (size_t)r.in(0, H.schur_rank()); ctx() << "tran " << tr << " N " << N << " last " << (long)ld << "\n"; auto b = rand_vec<T>(r, n); Array<T> B = arr(b), x(n), z(n), w(n);
      std::vector<T> xk(n, T(0)); double prev = 0;
      std::vector<double> ratio(1, 1.0); std::vector<std::vector<T>> X(1, xk);
      for (int k = 0; k < std::max(1, N); ++k) { auto y = mul(e, xk, tr); for (size_t i = 0; i < n; ++i) w[i] = b[i] - y[i]; H.solve(w, z, tr, ld); for (size_t i = 0; i < n; ++i) xk[i] += z[i]; X.push_back(xk); auto y2 = mul(e, xk, tr); auto q2 = b; for (size_t i = 0; i < n; ++i) q2[i] -= y2[i]; ratio.push_back(n2(b) == 0 ? 0 : n2(q2) / n2(b)); }
      auto cmp = [&](const Array<T> &g, const std::vector<T> &t, const char *what) { double s = 1; for (auto &v : t) s = std::max(s, std::abs(v)); for (size_t i = 0; i < n; ++i) CHECK(std::abs(g[i] - t[i]) <= 1e-8 * s, "%s: entry %zu differs", what, i); };
      H.hifir(A, B, N, x, tr, ld); cmp(x, xk, "hifir"); CHECK(eqv(B, b, n), "right-hand side changed by hifir");
      double be[2] = {r.p(.5) ? 1e-10 : r.d(0, .2), r.p(.5) ? 10.0 : r.d(0, .5)};
      auto st = H.hifir(A, B, N, be, x, tr, ld); CHECK(st.first <= (size_t)std::max(1, N), "too many iterations"); cmp(x, X[st.first], "hifir with bounds");
      const double sl = 1e-9; const double rt = ratio[st.first];
      if (n2(b) == 0 && N > 1) CHECK(st.first == 0 && st.second == 0, "zero right-hand side");
      else if (st.second == 0) CHECK(rt <= be[0] * (1 + sl) + 1e-13, "flag 0 but ratio %g above %g", rt, be[0]);
      else if (st.second > 0) CHECK(rt >= be[1] * (1 - sl) - 1e-13, "flag 1 but ratio %g not above %g", rt, be[1]);
      else CHECK((int)st.first == std::max(1, N), "flag -1 before the limit");
      (void)prev;
    }
  }
}
int main(int argc, char **argv) {
  return nat::run(argc, argv, [](Rng &r, uint64_t c) {
    if (c % 40 == 7) pub<double, CRS<double, int>>(r); else if (c % 40 == 17) pub<double, CCS<double, int>>(r); else if (c % 40 == 27) pub<Z, CRS<Z, int>>(r); else if (c % 40 == 37) pub<Z, CCS<Z, int>>(r);
    else if (c % 4 == 0) go<double, CRS<double, int>>(r); else if (c % 4 == 1) go<double, CCS<double, int>>(r); else if (c % 4 == 2) go<Z, CRS<Z, int>>(r); else go<Z, CCS<Z, int>>(r);
    nontrivial(hash(ctx().str())); });
}
