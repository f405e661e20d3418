// P12 bounded contract harness: constant-mode filter and callback filter, alone and attached to a preconditioner.
#include "nathif.hpp"
#include "hif/builder.hpp"
using namespace nat; using namespace hif;
template <class T> struct Sig; template <> struct Sig<double> { static const char c = 'd'; }; template <> struct Sig<float> { static const char c = 's'; };
template <> struct Sig<std::complex<double>> { static const char c = 'd'; }; template <> struct Sig<std::complex<float>> { static const char c = 's'; };
// reference: range [a,e) of x, or refusal
template <class T> static bool ref_filter(std::vector<T> &x, size_t a, size_t e) {
  const size_t n = x.size();
  if (e == (size_t)-1 || e < a) e = n;
  if (e < a || e > n) return false;
  T s(0); for (size_t i = a; i < e; ++i) s += x[i];
  if (e > a) { s /= T(e - a); for (size_t i = a; i < e; ++i) x[i] -= s; }
  return true;
}
template <class T> static void close(const T *got, const std::vector<T> &want, const std::vector<T> &x0, size_t a, size_t e, const char *what) {
  const double tol = sizeof(typename ValueTypeTrait<T>::value_type) == 4 ? 1e-3 : 1e-11;
  for (size_t i = 0; i < want.size(); ++i) {
    if (i < a || i >= e) CHECK(got[i] == x0[i], "%s: entry %zu outside the range was changed", what, i);
    CHECK(std::abs(got[i] - want[i]) <= tol, "%s: entry %zu differs from the mean-subtracted value", what, i);
  }
}
template <class T> static void go(Rng &r) {
  size_t n = r.in(0, 12); size_t a = r.in(0, n + 1), e = r.p(.25) ? (size_t)-1 : r.p(.2) ? (size_t)r.in(0, n + 3) : (size_t)r.in(0, n);
  if (r.p(.2)) { a = 0; e = (size_t)-1; }
  std::vector<T> v = rand_vec<T>(r, n); if (r.p(.2)) for (auto &x : v) x = T(2);
  ctx() << "n " << n << " start " << a << " end " << (long)e << "\nx " << str(v, n) << "\n";
  NspFilter f0(a, e), f1; f1.set_nsp_const(a, e);
  NspFilter f3([](void *, size_t, char) {}); f3.set_nsp_const(a, e);
  NspFilter f4(f0), f5(0, 3); f5 = f1;
  const NspFilter *fs[] = {&f0, &f1, &f3, &f4, &f5};
  for (int q = 0; q < 5; ++q) {
    std::vector<T> want = v; const bool ok = ref_filter(want, a, e);
    const size_t ee = (e == (size_t)-1 || e < a) ? n : e;
    std::vector<T> buf = v; T *x = new T[n ? n : 1]; std::copy(buf.begin(), buf.end(), x);   // exact-size buffer: ASan sees an overrun
    bool thrown = false;
    try { fs[q]->filter(x, n); } catch (std::exception &) { thrown = true; }
    CHECK(thrown == !ok, "range (%zu,%ld) with n=%zu: %s", a, (long)e, n, thrown ? "valid range refused" : "range that does not fit accepted");
    if (ok) {
      close(x, want, v, a, ee, "filter");
      std::vector<T> once(x, x + n); fs[q]->filter(x, n);
      const double tol = sizeof(typename ValueTypeTrait<T>::value_type) == 4 ? 1e-3 : 1e-11;
      for (size_t i = 0; i < n; ++i) CHECK(std::abs(x[i] - once[i]) <= tol, "not idempotent at %zu", i);
    } else CHECK(std::equal(v.begin(), v.end(), x), "refused filter changed the vector");
    delete[] x;
  }
  // callback: called once with the vector, its length and its type
  int calls = 0; void *px = nullptr; size_t pn = 77; char pc = 0;
  NspFilter g([&](void *p, const size_t k, const char c) { ++calls; px = p; pn = k; pc = c; });
  std::vector<T> w = v; w.push_back(T(1));
  g.filter(w.data(), n);
  CHECK(calls == 1 && px == (void *)w.data() && pn == n && pc == Sig<T>::c, "callback filter called with wrong arguments (%d calls, type %c)", calls, pc);
  CHECK(std::equal(v.begin(), v.end(), w.begin()), "callback mode changed the vector itself");
  NspFilter h; h.set_nsp_callback([&](void *, const size_t, const char) { ++calls; }); h.filter(w.data(), n); CHECK(calls == 2, "set_nsp_callback: callback not called");
  struct Over : NspFilter { Over() { _type = USER_OR; } mutable int k = 0; void user_filter(void *, const std::size_t, const char c) const override { k += c == Sig<T>::c ? 1 : 100; } } ov;
  ov.filter(w.data(), n); CHECK(ov.k == 1, "overridden user filter not called once with the type");
  NspFilter sw([&](void *, const size_t, const char) { ++calls; }); sw.set_nsp_const(); const int c0 = calls; std::vector<T> w2 = v, w3 = v; sw.filter(w2.data(), n); ref_filter(w3, 0, -1); CHECK(calls == c0, "callback called in constant mode"); close(w2.data(), w3, v, 0, n, "switched back to constant");
}
static void attached(Rng &r) {
  typedef HIF<double, int> prec_t; const size_t n = r.in(3, 25);
  Dense<double> d(n, n);
  for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < n; ++j) if (i != j && r.p(.25)) d.set(i, j, r.in(-3, 3)); d.set(i, i, 20 + r.in(0, 9)); }
  show("A", d); auto A = to_hif<CRS<double, int>>(d);
  Options opt = get_default_options(); opt.verbose = VERBOSE_NONE;
  prec_t M; M.factorize(A, opt);
  Array<double> b(n), x0(n), t0(n), x(n); for (auto &z : b) z = r.in(-9, 9);
  M.solve(b, x0); M.solve(b, t0, true);
  const size_t a = r.in(0, n - 1), e = r.in(a, n); const size_t a2 = r.in(0, n - 1), e2 = r.in(a2, n);
  M.nsp = std::make_shared<NspFilter>(a, e); M.nsp_tran = std::make_shared<NspFilter>(a2, e2);
  std::vector<double> v0(x0.begin(), x0.end()), w0 = v0, vt(t0.begin(), t0.end()), wt = vt;
  ref_filter(w0, a, e); ref_filter(wt, a2, e2);
  M.solve(b, x); close(x.data(), w0, v0, a, e < a ? n : e, "solve with right null space filter");
  M.solve(b, x, true); close(x.data(), wt, vt, a2, e2 < a2 ? n : e2, "transposed solve with left null space filter");
  M.nsp_tran.reset(); M.solve(b, x, true); close(x.data(), vt, vt, 0, 0, "transposed solve without left filter");
  M.nsp_tran = M.nsp; M.nsp.reset(); M.solve(b, x); close(x.data(), v0, v0, 0, 0, "solve without right filter");
}
int main(int argc, char **argv) {
  return nat::run(argc, argv, [](Rng &r, uint64_t c) {
    if (c % 50 == 7) attached(r); else if (c % 5 == 1) go<float>(r); else if (c % 5 == 2) go<std::complex<double>>(r); else if (c % 5 == 3) go<std::complex<float>>(r); else go<double>(r);
    nontrivial(hash(ctx().str())); });
}
