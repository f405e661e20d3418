// P19 bounded contract harness: dense last-level solvers against dense oracles (real / complex, full rank and rank deficient, plain / transposed / several right-hand sides).
#include "nathif.hpp"
#include "hif/small_scale/solver.hpp"
#include "hif/Options.h"
using namespace nat; using namespace hif;
typedef std::complex<double> Z; typedef std::complex<float> Zf;
template <class T> struct Tol { static double v() { return 1e-9; } }; template <> struct Tol<float> { static double v() { return 5e-3; } }; template <> struct Tol<Zf> { static double v() { return 5e-3; } };
template <class T> static T rv(Rng &r, int b = 3) { return T(r.in(-b, b)); }
template <> Z rv<Z>(Rng &r, int b) { return Z(r.in(-b, b), r.in(-b, b)); } template <> Zf rv<Zf>(Rng &r, int b) { return Zf(r.in(-b, b), r.in(-b, b)); }
struct Wide { static double w(float x) { return x; } static double w(double x) { return x; } static Z w(Z x) { return x; } static Z w(Zf x) { return Z(x); } };
template <class T> struct Up { typedef double t; }; template <> struct Up<Z> { typedef Z t; }; template <> struct Up<Zf> { typedef Z t; };
template <class W> static Dense<W> tr(const Dense<W> &A) { Dense<W> B(A.n, A.m); for (size_t i = 0; i < A.m; ++i) for (size_t j = 0; j < A.n; ++j) B(j, i) = cj(A(i, j)); return B; }
template <class W> static std::vector<W> mv(const Dense<W> &A, const std::vector<W> &x) { std::vector<W> y(A.m, W(0)); for (size_t i = 0; i < A.m; ++i) for (size_t j = 0; j < A.n; ++j) y[i] += A(i, j) * x[j]; return y; }
// inverse by full elimination; returns false if too ill-conditioned (estimate of cond > lim)
template <class W> static bool inverse(Dense<W> A, Dense<W> &X, double lim) {
  const size_t n = A.m; double na = 0, nx = 0; for (auto &v : A.a) na = std::max(na, (double)std::abs(v)); X = Dense<W>(n, n); for (size_t i = 0; i < n; ++i) X(i, i) = W(1);
  for (size_t c = 0; c < n; ++c) { size_t p = c; for (size_t i = c; i < n; ++i) if (std::abs(A(i, c)) > std::abs(A(p, c))) p = i; if (std::abs(A(p, c)) < 1e-9) return false;
    for (size_t j = 0; j < n; ++j) std::swap(A(c, j), A(p, j)), std::swap(X(c, j), X(p, j)); const W d = A(c, c); for (size_t j = 0; j < n; ++j) A(c, j) /= d, X(c, j) /= d;
    for (size_t i = 0; i < n; ++i) if (i != c) { const W f = A(i, c); for (size_t j = 0; j < n; ++j) A(i, j) -= f * A(c, j), X(i, j) -= f * X(c, j); } }
  for (auto &v : X.a) nx = std::max(nx, (double)std::abs(v)); return na * nx * n <= lim;
}
template <class T, class W> static DenseMatrix<T> dm(const Dense<W> &A) { DenseMatrix<T> d(A.m, A.n); for (size_t i = 0; i < A.m; ++i) for (size_t j = 0; j < A.n; ++j) d(i, j) = T(A(i, j)); return d; }
template <class W> static void showd(const char *n, const Dense<W> &A) { ctx() << n << " (" << A.m << "x" << A.n << "):\n"; for (size_t i = 0; i < A.m; ++i) { for (size_t j = 0; j < A.n; ++j) ctx() << A(i, j) << ' '; ctx() << '\n'; } }
template <class A, class W> static void cl(const A &g, const std::vector<W> &w, double tol, const char *what) { double s = 1; for (auto &v : w) s = std::max(s, (double)std::abs(v)); for (size_t i = 0; i < w.size(); ++i) CHECK(std::abs(Z(Wide::w(g[i])) - Z(w[i])) <= tol * s, "%s: entry %zu is wrong", what, i); }
template <class T, class W> static Array<T> av(const std::vector<W> &v) { Array<T> a(v.size()); for (size_t i = 0; i < v.size(); ++i) a[i] = T(v[i]); return a; }
template <class T, class W> static void setm(Rng &r, Dense<W> &A, DenseMatrix<T> *, int &how) { (void)r; (void)A; how = 0; }
template <class S, class T, class W> static void load(Rng &r, S &s, const Dense<W> &A) {
  const int how = r.in(0, 3); ctx() << "load " << how << "\n"; Dense<T> D(A.m, A.n); for (size_t i = 0; i < A.m; ++i) for (size_t j = 0; j < A.n; ++j) if (A(i, j) != W(0) || r.p(.3)) D.set(i, j, T(A(i, j)));
  if (how == 0) s.set_matrix(dm<T>(A)); else if (how == 1) { DenseMatrix<T> d = dm<T>(A); s.set_matrix(std::move(d)); } else if (how == 2) s.set_matrix(to_hif<CRS<T, int>>(D)); else s.set_matrix(to_hif<CCS<T, int>>(D));
  CHECK(s.mat().nrows() == A.m && s.mat().ncols() == A.n, "dimensions of the dense block"); for (size_t i = 0; i < A.m; ++i) for (size_t j = 0; j < A.n; ++j) CHECK(s.mat()(i, j) == T(A(i, j)) && s.mat_backup()(i, j) == T(A(i, j)), "entry (%zu,%zu) of the dense block", i, j);
}
template <class W> static std::vector<W> rvec(Rng &r, size_t n) { std::vector<W> v(n); for (auto &x : v) x = rv<W>(r, 4); return v; }
template <class S, size_t N, class T, class W, class F> static void mrhs_n(Rng &r, const S &s, size_t n, F oracle, double tol, bool mul, size_t rk, bool t);
// ---- LUP
template <class T> static void lup(Rng &r) {
  typedef typename Up<T>::t W; const size_t n = r.in(1, 7); Dense<W> A(n, n), X; do { for (auto &v : A.a) v = r.p(.7) ? rv<W>(r) : W(0); } while (!inverse(A, X, 200)); showd("A", A); const double tol = Tol<T>::v();
  Options o = get_default_options(); o.verbose = VERBOSE_NONE; LUP<T> s; load<LUP<T>, T>(r, s, A); s.factorize(o); if (r.p(.2)) s.refactorize(o); CHECK(s.rank() == n && s.full_rank(), "rank of a full-rank block");
  for (int k = 0; k < 4; ++k) { const bool t = r.p(.5); const auto M = t ? tr(A) : A; auto x = rvec<W>(r, n), b = mv(M, x); ctx() << "tran " << t << "\n"; showv("x", x, n);
    { Array<T> B = av<T>(b); s.solve(B, 0, t); cl(B, x, tol, "LU solve"); } { Array<W> B = av<W>(b); s.solve(B, 0, t); cl(B, x, tol, "LU solve, other value type"); }
    { Array<std::array<T, 3>> B(n); auto x2 = rvec<W>(r, n), x3 = rvec<W>(r, n), b2 = mv(M, x2), b3 = mv(M, x3); for (size_t i = 0; i < n; ++i) B[i] = {{T(b[i]), T(b2[i]), T(b3[i])}}; s.solve_mrhs(B, 0, t); std::vector<W> c(n); for (int q = 0; q < 3; ++q) { for (size_t i = 0; i < n; ++i) c[i] = B[i][q]; cl(c, q == 0 ? x : q == 1 ? x2 : x3, tol, "LU solve with several right-hand sides"); } }
    { Array<T> B = av<T>(x), Y(n); for (auto &z : Y) z = T(7); s.multiply(B, Y, 0, t); cl(Y, b, tol, "LU product"); cl(B, x, 0, "LU product input"); } }
}
// ---- QRCP
template <class T> struct QP : QRCP<T> { std::vector<size_t> lead(size_t k) const { std::vector<size_t> J; for (size_t i = 0; i < k; ++i) J.push_back(this->_jpvt[i] - 1); return J; } bool perm() const { std::vector<int> c(this->_jpvt.size(), 0); for (auto j : this->_jpvt) { if (j < 1 || (size_t)j > c.size() || c[j - 1]++) return false; } return true; } };
template <class W> static Dense<W> cols(const Dense<W> &A, const std::vector<size_t> &J) { Dense<W> B(A.m, J.size()); for (size_t i = 0; i < A.m; ++i) for (size_t j = 0; j < J.size(); ++j) B(i, j) = A(i, J[j]); return B; }
template <class W> static Dense<W> gram(const Dense<W> &B) { Dense<W> G(B.n, B.n); for (size_t i = 0; i < B.n; ++i) for (size_t j = 0; j < B.n; ++j) for (size_t k = 0; k < B.m; ++k) G(i, j) += cj(B(k, i)) * B(k, j); return G; }
template <class T> static void qrcp(Rng &r) {
  typedef typename Up<T>::t W; const double tol = Tol<T>::v() * 10; const size_t n = r.in(1, 7); size_t rank = r.p(.5) ? n : (size_t)r.in(0, (int)n); Dense<W> A(n, n), X;
  if (rank == n) do { for (auto &v : A.a) v = r.p(.7) ? rv<W>(r) : W(0); } while (!inverse(A, X, 100));
  else { for (int t = 0;; ++t) { Dense<W> P(n, rank), Q(rank, n), G; for (auto &v : P.a) v = rv<W>(r, 2); for (auto &v : Q.a) v = rv<W>(r, 2); A = Dense<W>(n, n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) for (size_t k = 0; k < rank; ++k) A(i, j) += P(i, k) * Q(k, j);
      if (rank == 0 || (inverse(gram(P), G, 300) && inverse(gram(tr(Q)), G, 300))) break; } }
  showd("A", A); ctx() << "rank " << rank << "\n"; Options o = get_default_options(); o.verbose = VERBOSE_NONE; QP<T> s; load<QP<T>, T>(r, s, A); s.factorize(o); if (r.p(.2)) s.refactorize(o);
  CHECK(s.rank() == rank, "rank reported as %zu, is %zu", (size_t)s.rank(), rank); CHECK(s.full_rank() == (rank == n && n), "full_rank"); CHECK(s.perm(), "column pivoting is not a permutation");
  for (int k = 0; k < 4; ++k) {
    const bool t = r.p(.5), mul = r.p(.4); const size_t req = r.p(.5) ? 0 : (size_t)r.in(1, std::max<int>(1, (int)rank)), rk = req && rank ? req : (req ? 0 : rank); if (!rank && req) continue; const auto J = s.lead(rk); const Dense<W> B = cols(A, J); Dense<W> G = gram(B), Gi;
    if (rk && !inverse(G, Gi, 1e5)) continue; ctx() << "req " << req << " tran " << t << " mul " << mul << "\n"; auto b = rvec<W>(r, n); showv("b", b, n);
    auto oracle = [&](const std::vector<W> &b) { std::vector<W> y(n, W(0)), bj(rk), z; for (size_t i = 0; i < rk; ++i) bj[i] = b[J[i]];
      if (!mul && !t) { z = rk ? mv(Gi, mv(tr(B), b)) : bj; for (size_t i = 0; i < rk; ++i) y[J[i]] = z[i]; } else if (!mul) { if (rk) y = mv(B, mv(Gi, bj)); }
      else if (!t) y = mv(B, bj); else { z = mv(tr(B), b); for (size_t i = 0; i < rk; ++i) y[J[i]] = z[i]; } return y; };
    const double tl = tol * 10;
    { Array<T> v = av<T>(b); mul ? s.multiply(v, req, t) : s.solve(v, req, t); cl(v, oracle(b), tl, mul ? "QR product" : "QR solve"); if (!t && !mul) { size_t nz = 0; for (auto &z : v) nz += z != T(0); CHECK(nz <= rk, "solution uses more than rank columns"); } }
    { Array<W> v = av<W>(b); mul ? s.multiply(v, req, t) : s.solve(v, req, t); cl(v, oracle(b), tl, "QR, other value type"); }
    { Array<std::array<T, 3>> v(n); auto b2 = rvec<W>(r, n), b3 = rvec<W>(r, n); for (size_t i = 0; i < n; ++i) v[i] = {{T(b[i]), T(b2[i]), T(b3[i])}}; mul ? s.multiply_mrhs(v, req, t) : s.solve_mrhs(v, req, t); std::vector<W> c(n); for (int q = 0; q < 3; ++q) { for (size_t i = 0; i < n; ++i) c[i] = v[i][q]; cl(c, oracle(q == 0 ? b : q == 1 ? b2 : b3), tl, "QR with several right-hand sides"); } }
  }
}
// ---- SYEIG
template <class T> static void syeig(Rng &r) {
  typedef typename Up<T>::t W; const double tol = Tol<T>::v() * 10; const size_t n = r.in(1, 6); Dense<W> Q(n, n); for (size_t i = 0; i < n; ++i) Q(i, i) = W(1);
  for (int h = 0; h < 2 && n > 1; ++h) { std::vector<W> v(n); double nn = 0; for (auto &x : v) x = rv<W>(r, 2), nn += std::norm(x); if (nn == 0) continue; Dense<W> P = Q; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { W s(0); for (size_t k = 0; k < n; ++k) s += v[i] * cj(v[k]) * Q(k, j); P(i, j) -= 2. / nn * s; } Q = P; }
  const int spd = r.in(-1, 1); std::vector<double> w(n); std::vector<int> mag; for (size_t i = 0; i < n; ++i) mag.push_back(i + 1); for (size_t k = n; k > 1; --k) std::swap(mag[k - 1], mag[r.u() % k]); size_t zeros = r.p(.5) ? 0 : (size_t)r.in(0, (int)n);
  for (size_t i = 0; i < n; ++i) w[i] = i < zeros ? 0 : mag[i] * (spd ? spd : r.p(.5) ? 1 : -1); const size_t rank = n - zeros;
  Dense<W> A(n, n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) for (size_t k = 0; k < n; ++k) A(i, j) += w[k] * Q(i, k) * cj(Q(j, k)); for (size_t i = 0; i < n; ++i) { A(i, i) = W(std::real(Z(A(i, i)))); for (size_t j = 0; j < i; ++j) A(j, i) = cj(A(i, j)); }
  showd("A", A); showv("eig", w, n); ctx() << "spd " << spd << "\n"; Options o = get_default_options(); o.verbose = VERBOSE_NONE; o.spd = spd; SYEIG<T> s; load<SYEIG<T>, T>(r, s, A); s.factorize(o); if (r.p(.2)) s.refactorize(o);
  CHECK(s.rank() == rank, "rank reported as %zu, is %zu", (size_t)s.rank(), rank); CHECK(s.full_rank() == (rank == n), "full_rank");
  std::vector<size_t> ord; for (size_t i = 0; i < n; ++i) ord.push_back(i); std::sort(ord.begin(), ord.end(), [&](size_t a, size_t b) { return std::abs(w[a]) > std::abs(w[b]); });
  for (int k = 0; k < 4; ++k) {
    const bool mul = r.p(.4); if (!rank && r.p(.5)) continue; const size_t req = r.p(.5) || !rank ? 0 : (size_t)r.in(1, (int)rank), rk = req ? req : rank; auto b = rvec<W>(r, n); ctx() << "req " << req << " mul " << mul << "\n"; showv("b", b, n);
    auto oracle = [&](const std::vector<W> &b) { std::vector<W> y(n, W(0)); for (size_t q = 0; q < rk; ++q) { const size_t c = ord[q]; W d(0); for (size_t i = 0; i < n; ++i) d += cj(Q(i, c)) * b[i]; for (size_t i = 0; i < n; ++i) y[i] += Q(i, c) * (mul ? d * w[c] : d / w[c]); } return y; };
    { Array<T> v = av<T>(b); mul ? s.multiply(v, req) : s.solve(v, req); cl(v, oracle(b), tol, mul ? "symmetric product" : "symmetric solve"); }
    { Array<W> v = av<W>(b); mul ? s.multiply(v, req) : s.solve(v, req); cl(v, oracle(b), tol, "symmetric, other value type"); }
    { Array<std::array<T, 3>> v(n); auto b2 = rvec<W>(r, n), b3 = rvec<W>(r, n); for (size_t i = 0; i < n; ++i) v[i] = {{T(b[i]), T(b2[i]), T(b3[i])}}; mul ? s.multiply_mrhs(v, req) : s.solve_mrhs(v, req); std::vector<W> c(n); for (int q = 0; q < 3; ++q) { for (size_t i = 0; i < n; ++i) c[i] = v[i][q]; cl(c, oracle(q == 0 ? b : q == 1 ? b2 : b3), tol, "symmetric with several right-hand sides"); } }
  }
}
// ---- sparse to dense
template <class T, class M> static void conv(Rng &r) { Dense<T> D = rand_dense<T>(r, r.in(0, 7), r.in(0, 7), r.d(0, 1)); show("D", D); auto m = DenseMatrix<T>::from_sparse(to_hif<M>(D)); if (r.p(.3)) { Dense<T> D2 = rand_dense<T>(r, D.m, D.n, .4); m = DenseMatrix<T>::from_sparse(to_hif<M>(D2)); m.copy_sparse(to_hif<M>(D)); }
  CHECK(m.nrows() == D.m && m.ncols() == D.n, "dimensions of the dense matrix"); for (size_t i = 0; i < D.m; ++i) for (size_t j = 0; j < D.n; ++j) CHECK(m(i, j) == D(i, j), "entry (%zu,%zu) of the dense matrix", i, j); }
#define C1(n, f) {n, [](Rng &r) { f(r); nontrivial(hash(ctx().str())); }}
int main(int argc, char **argv) {
  return nat::run(argc, argv, Cases{C1("lup double", lup<double>), C1("lup complex", lup<Z>), C1("lup cfloat", lup<Zf>), C1("qr double", qrcp<double>), C1("qr float", qrcp<float>), C1("qr complex", qrcp<Z>), C1("qr cfloat", qrcp<Zf>), C1("sy double", syeig<double>), C1("sy complex", syeig<Z>), C1("sy float", syeig<float>), {"crs", [](Rng &r) { conv<double, CRS<double, int>>(r); nontrivial(hash(ctx().str())); }}, {"ccs", [](Rng &r) { conv<Z, CCS<Z, int>>(r); nontrivial(hash(ctx().str())); }}});
}
