// random multilevel preconditioners with small exact data, and the dense matrix they stand for
#pragma once
#include "nathif.hpp"
#include "hif/builder.hpp"
namespace nat {
using namespace hif;
typedef std::complex<double> Z;
template <class T> inline Dense<T> mm(const Dense<T> &A, const Dense<T> &B) { Dense<T> C(A.m, B.n); for (size_t i = 0; i < A.m; ++i) for (size_t k = 0; k < A.n; ++k) for (size_t j = 0; j < B.n; ++j) C(i, j) += A(i, k) * B(k, j); return C; }
template <class T> inline std::vector<T> mv(const Dense<T> &A, const std::vector<T> &x, bool tran = false) { std::vector<T> y(tran ? A.n : A.m, T(0)); for (size_t i = 0; i < A.m; ++i) for (size_t j = 0; j < A.n; ++j) { if (tran) y[j] += cj(A(i, j)) * x[i]; else y[i] += A(i, j) * x[j]; } return y; }
template <class T> inline Dense<T> eye(size_t n) { Dense<T> e(n, n); for (size_t i = 0; i < n; ++i) e(i, i) = T(1); return e; }
template <class T> inline Dense<T> ctr(const Dense<T> &A) { Dense<T> B(A.n, A.m); for (size_t i = 0; i < A.m; ++i) for (size_t j = 0; j < A.n; ++j) B(j, i) = cj(A(i, j)); return B; }
// inverse of I + strict triangle
template <class T> inline Dense<T> uinv(const Dense<T> &S, bool lower) { const size_t n = S.m; Dense<T> X = eye<T>(n); for (size_t a = 0; a < n; ++a) { const size_t i = lower ? a : n - 1 - a; for (size_t k = 0; k < n; ++k) if (lower ? k < i : k > i) for (size_t j = 0; j < n; ++j) X(i, j) -= S(i, k) * X(k, j); } return X; }
// exact dense last level: A and its inverse; the requested dimension r scales the result so that it is seen whether it arrives
template <class T> struct ExactDense {
  Dense<T> A, Ai; bool set = false; bool symm = false; static constexpr bool sy = false;
  bool empty() const { return !set; } size_t rank() const { return A.m; }
  static T f(size_t r) { return T(1 << (r % 3)); }
  template <class X> void ap(const Dense<T> &D, X &x, T sc, bool tran) const {
    typedef typename std::remove_reference<decltype(x[0])>::type V; CHECK(x.size() == D.m, "dense level called with %zu entries, size is %zu", (size_t)x.size(), D.m);
    std::vector<T> v(D.m); for (size_t i = 0; i < D.m; ++i) v[i] = T(x[i]); auto y = mv(D, v, tran); for (size_t i = 0; i < D.m; ++i) x[i] = V(y[i] * sc); }
  template <class X> void solve(X &x, size_t r = 0, bool tran = false) const { ap(Ai, x, f(r), tran); }
  template <class X> void multiply(X &x, size_t r = 0, bool tran = false) const { ap(A, x, T(1) / f(r), tran); }
  template <class V, size_t N> void solve_mrhs(Array<std::array<V, N>> &x, size_t r = 0, bool tran = false) const {
    for (size_t k = 0; k < N; ++k) { std::vector<V> c(x.size()); for (size_t i = 0; i < c.size(); ++i) c[i] = x[i][k]; solve(c, r, tran); for (size_t i = 0; i < c.size(); ++i) x[i][k] = c[i]; } }
};
template <class T> struct ExactFactor { typedef ExactDense<T> unsymm_solver_type; struct S : ExactDense<T> {}; typedef S symm_solver_type; };
template <class T> using HH = HIF<T, int, std::ptrdiff_t, ExactFactor>;
inline std::vector<int> rperm(Rng &r, size_t n) { std::vector<int> p(n); for (size_t i = 0; i < n; ++i) p[i] = i; if (r.p(.8)) for (size_t k = n; k > 1; --k) std::swap(p[k - 1], p[r.u() % k]); return p; }
template <class T> inline Array<int> iarr(const std::vector<int> &v) { return arr(v); }
template <class T> inline T pick(Rng &r) { return T(r.in(0, 3) ? (r.p(.5) ? 1 : -1) : (r.p(.5) ? 2 : -1)); }
template <> inline Z pick<Z>(Rng &r) { switch (r.in(0, 4)) { case 0: return Z(0, 1); case 1: return Z(0, -1); case 2: return Z(1, 1); case 3: return Z(-1, 0); } return Z(1, 0); }
template <class T> inline Dense<T> rblk(Rng &r, size_t m, size_t n, double de, int tri) { Dense<T> d(m, n); for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) if ((tri == 0 || (tri < 0 ? j < i : j > i)) && r.p(de)) d.set(i, j, pick<T>(r)); return d; }
// appends levels to H; returns the dense matrix M of the operator (last level with dimension argument r = 0)
template <class T, class H> inline Dense<T> build(Rng &r, H &P, size_t n, int depth, bool herm_last, int idx = 0) {
  typedef typename H::value_type prec; typedef typename prec::ccs_type mat; typedef typename prec::scalar_type sc;
  size_t m; bool last = depth <= 0 || n <= 1;
  int kind;                                                // 0 sparse only (m = n), 1 dense, 2 symmetric dense, 3 next level
  if (last) { kind = r.p(.2) || !n ? 0 : herm_last || r.p(.3) ? 2 : 1; if (kind == 2 && !herm_last) kind = 2; m = kind == 0 ? n : (size_t)r.in(0, (int)n - 1); }
  else { kind = 3; m = (size_t)r.in(0, (int)n - 1); if (r.p(.85) && m == 0) m = 1; }
  const size_t k = n - m; const double de = r.p(.2) ? 0.0 : r.d(.2, .9);
  Dense<T> L = rblk<T>(r, m, m, de, -1), U = rblk<T>(r, m, m, de, 1), E = rblk<T>(r, k, m, r.p(.15) ? 0 : de, 0), F = rblk<T>(r, m, k, r.p(.15) ? 0 : de, 0);
  std::vector<T> d(m); for (auto &z : d) z = pick<T>(r); std::vector<sc> s(n), t(n); for (auto &z : s) z = sc(std::ldexp(1.0, r.in(-1, 2))); for (auto &z : t) z = sc(std::ldexp(1.0, r.in(-1, 2)));
  auto p = rperm(r, n), q = rperm(r, n); std::vector<int> pi(n), qi(n); for (size_t i = 0; i < n; ++i) pi[p[i]] = i, qi[q[i]] = i;
  ctx() << "level " << idx << ": n " << n << " m " << m << " kind " << kind << "\n"; show("L", L); show("U", U); show("E", E); show("F", F); showv("d", d, m); showv("s", s, n); showv("t", t, n); showv("p", p, n); showv("q", q, n);
  P.emplace_back(m, n, to_hif<mat>(L), arr(d), to_hif<mat>(U), to_hif<mat>(E), to_hif<mat>(F), arr(s), arr(t), arr(p), arr(pi), arr(q), arr(qi));
  Dense<T> C(k, k);
  if (kind == 3) { C = build<T>(r, P, k, depth - 1, herm_last, idx + 1); }
  else if (kind) {
    Dense<T> X, Xi;
    if (kind == 1) { Dense<T> a = rblk<T>(r, k, k, .4, -1); X = eye<T>(k); for (size_t i = 0; i < k; ++i) for (size_t j = 0; j < i; ++j) X(i, j) = a(i, j); Xi = uinv(a, true); for (size_t i = 0; i < k; ++i) { const T z(r.p(.5) ? 2 : 1); for (size_t j = 0; j < k; ++j) { X(i, j) *= z; Xi(j, i) /= z; } } }
    else { X = Dense<T>(k, k); Xi = X; for (size_t i = 0; i < k; ++i) { const size_t j = k - 1 - i; T z(j < i ? X(j, i) : T(r.p(.5) ? 2 : -1)); X(i, j) = z; Xi(i, j) = T(1) / z; } }
    if (kind == 1) { auto &S = P.back().dense_solver; S.A = X; S.Ai = Xi; S.set = true; } else { auto &S = P.back().symm_dense_solver; S.A = X; S.Ai = Xi; S.set = true; }
    show("last level", X); for (size_t i = 0; i < k; ++i) { for (size_t j = 0; j < k; ++j) ctx() << X(i, j) << ' '; ctx() << '\n'; }
    C = X;
  }
  // M = Ds^-1 P [B F; E, E B^-1 F + C] Q^T Dt^-1,  B = (I+L) D (I+U)
  Dense<T> LI = eye<T>(m), UI = eye<T>(m); for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < m; ++j) { LI(i, j) += L(i, j); UI(i, j) += U(i, j); }
  Dense<T> LD = LI, UDi = uinv(U, false); for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < m; ++j) { LD(i, j) *= d[j]; UDi(i, j) /= d[j]; }
  Dense<T> B = mm(LD, UI), Bi = mm(UDi, uinv(L, true)), S = mm(mm(E, Bi), F), M(n, n);
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
    T v = i < m ? (j < m ? B(i, j) : F(i, j - m)) : (j < m ? E(i - m, j) : S(i - m, j - m) + C(i - m, j - m));
    M(p[i], q[j]) = v / T(s[p[i]]) / T(t[q[j]]);
  }
  return M;
}
template <class T> inline double big(const std::vector<T> &v) { double s = 1; for (auto &x : v) s = std::max(s, (double)std::abs(x)); return s; }
template <class T> inline double big(const Dense<T> &v) { return big(v.a); }
// the vector operations of every level are exact here; tolerance only guards against growth beyond 2^53
template <class A, class B> inline void near(const A &g, const B &w, size_t n, double tol, const char *what) { double s = 1; for (size_t i = 0; i < n; ++i) s = std::max(s, (double)std::abs(w[i])); for (size_t i = 0; i < n; ++i) CHECK(std::abs(Z(g[i]) - Z(w[i])) <= tol * s, "%s: entry %zu is wrong", what, i); }
template <class A, class B> inline bool eqc(const A &a, const B &b, size_t n) { return eqv(a, b, n); }
}
