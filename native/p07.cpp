// P07 bounded contract harness: sparse accumulator histories, dropping rules, per-row limits of the off-diagonal blocks.
#include "nathif.hpp"
#include <map>
#include <cmath>
#include "hif/ds/SparseVec.hpp"
#include "hif/alg/thresholds.hpp"
#include "hif/alg/Schur.hpp"
using namespace nat; using namespace hif;
template <class T> struct Model { std::vector<long> idx; std::map<long, T> val; std::vector<char> mk; };
template <class SV, class T> static void cmp(SV &v, const Model<T> &m, const char *what) {
  CHECK(v.size() == m.idx.size(), "%s: size %zu expected %zu", what, (size_t)v.size(), m.idx.size());
  for (size_t i = 0; i < m.idx.size(); ++i) { CHECK((long)v.idx(i) - 0 == m.idx[i], "%s: index at %zu is %ld expected %ld", what, i, (long)v.idx(i), m.idx[i]); CHECK(v.val(i) == m.val.at(m.idx[i]), "%s: value of index %ld", what, m.idx[i]); }
}
template <class T, class Ix> static void history(Rng &r) {
  typedef SparseVector<T, Ix> SV; const size_t n = r.in(1, 12); SV v(r.p(.5) ? n : 0); v.resize(n);
  Model<T> m; size_t step = 1; std::set<long> tagged;
  for (int k = 0, K = r.in(1, 40); k < K; ++k) switch (r.in(0, 9)) {
    case 0: v.compress_indices(); if (r.p(.5)) v.restore_cur_state(); v.reset_counter(); ++step; m.idx.clear(); m.mk.clear(); tagged.clear(); ctx() << "reset\n"; CHECK(v.size() == 0, "reset leaves %zu entries", (size_t)v.size()); break;
    case 1: { ctx() << "compress\n"; Model<T> o; for (size_t i = 0; i < m.idx.size(); ++i) if (!m.mk[i]) { o.idx.push_back(m.idx[i]); o.mk.push_back(0); } o.val = m.val; m = o; v.compress_indices(); cmp<SV, T>(v, m, "compress_indices"); break; }
    case 2: if (m.idx.size()) { const size_t i = r.u() % m.idx.size(); ctx() << "mark " << i << "\n"; v.mark_delete(i); m.mk[i] = 1; cmp<SV, T>(v, m, "mark_delete"); } break;
    case 3: { bool any = false; for (char c : m.mk) any |= c; if (any) break; ctx() << "sort\n"; v.sort_indices(); std::sort(m.idx.begin(), m.idx.end()); cmp<SV, T>(v, m, "sort_indices"); break; }
    case 4: { const T a = Val<T>::get(r); ctx() << "scale\n"; v.scale(a); for (long i : m.idx) m.val[i] *= a; cmp<SV, T>(v, m, "scale"); break; }
    case 5: { ctx() << "restore, reset, push all again with the same step\n"; v.compress_indices(); { Model<T> o; for (size_t i = 0; i < m.idx.size(); ++i) if (!m.mk[i]) { o.idx.push_back(m.idx[i]); o.mk.push_back(0); } o.val = m.val; m = o; }
      v.restore_cur_state(); v.reset_counter(); for (long j : m.idx) CHECK(v.push_back((Ix)j, step), "index %ld not new after restoring the state", j); for (long j : m.idx) CHECK(!v.push_back((Ix)j, step), "index %ld new twice", j);
      cmp<SV, T>(v, m, "push after restore"); break; }
    default: { const Ix i = r.u() % n; if (!tagged.count(i) && m.idx.size() >= n) break; ctx() << "push " << i << " step " << step << "\n"; const bool nw = v.push_back(i, step), e = !tagged.count(i);
      CHECK(nw == e, "push_back reports %d expected %d", (int)nw, (int)e); const T x = Val<T>::get(r); if (e) { m.idx.push_back(i); m.mk.push_back(0); tagged.insert(i); v.vals()[i] = x; m.val[i] = x; } else { v.vals()[i] += x; m.val[i] += x; }
      cmp<SV, T>(v, m, "push_back"); }
  }
  nontrivial(hash(ctx().str()));
}
template <class T> static void fill(Rng &r, SparseVector<T, int> &v, Model<T> &m, size_t n, size_t cnt) {
  v.resize(n); std::vector<int> ids(n); for (size_t i = 0; i < n; ++i) ids[i] = i; for (size_t k = n; k > 1; --k) std::swap(ids[k - 1], ids[r.u() % k]);
  for (size_t k = 0; k < cnt; ++k) { v.push_back(ids[k], 3); const T x = T(r.in(-4, 4)) * T(r.p(.5) ? 1 : 0.5); v.vals()[ids[k]] = x; m.idx.push_back(ids[k]); m.mk.push_back(0); m.val[ids[k]] = x; ctx() << ids[k] << ":" << std::abs(x) << " "; }
  ctx() << "\n";
}
template <class T> static void num(Rng &r) {
  const size_t n = r.in(1, 14), cnt = r.in(0, n); SparseVector<T, int> v; Model<T> m; fill<T>(r, v, m, n, cnt);
  const double tau = r.p(.2) ? r.in(-1, 0) : r.in(1, 12) * .25, kap = r.in(1, 4); ctx() << "tau " << tau << " kappa " << kap << "\n";
  apply_num_dropping(tau, kap, v); Model<T> o; o.val = m.val;
  for (long i : m.idx) if (tau <= 0 || std::abs(m.val[i]) > tau / kap) { o.idx.push_back(i); o.mk.push_back(0); }
  cmp<SparseVector<T, int>, T>(v, o, "apply_num_dropping"); nontrivial(hash(ctx().str()));
  // the flags are clean again: a second pass and an unconditional compression change nothing
  v.compress_indices(); cmp<SparseVector<T, int>, T>(v, o, "compress after dropping");
}
template <class T> static void space(Rng &r) {
  const size_t n = r.in(1, 14), cnt = r.in(0, n); SparseVector<T, int> v; Model<T> m; fill<T>(r, v, m, n, cnt);
  const size_t nnz = r.in(0, 6), start = r.p(.5) ? 0 : r.in(0, 8); const double al = r.p(.15) ? r.in(-1, 0) : r.in(1, 10) * .25; ctx() << "nnz " << nnz << " alpha " << al << " start " << start << "\n";
  apply_space_dropping(nnz, al, v, start);
  size_t N1 = al > 0 ? (size_t)std::ceil(al * nnz) : 0, N = al > 0 ? (start >= N1 ? 1 : N1 - start) : cnt, keep = std::min(cnt, N);
  CHECK(v.size() == keep, "apply_space_dropping keeps %zu of %zu, requested %zu", (size_t)v.size(), cnt, N);
  std::set<long> kept; double lo = 1e300; for (size_t i = 0; i < keep; ++i) { const long j = v.idx(i); CHECK(m.val.count(j), "kept index %ld was never there", j); CHECK(kept.insert(j).second, "kept index %ld twice", j); CHECK(v.val(i) == m.val[j], "value of kept index %ld changed", j); lo = std::min(lo, (double)std::abs(m.val[j])); }
  for (long j : m.idx) if (!kept.count(j)) CHECK(std::abs(m.val[j]) <= lo, "dropped entry %ld (%g) is larger than a kept one (%g)", j, (double)std::abs(m.val[j]), lo);
  if (keep == cnt) for (size_t i = 0; i < cnt; ++i) CHECK((long)v.idx(i) == m.idx[i], "nothing to drop, but the entries moved");
  nontrivial(hash(ctx().str()));
}
template <class M, class Ref> static void offsets(Rng &r) {
  typedef typename M::value_type T; const bool row = M::ROW_MAJOR; const size_t N = r.in(0, 7), K = r.in(1, 9), nr = row ? N : K, nc = row ? K : N;
  Dense<T> d(nr, nc), a(nr, nc); std::vector<size_t> ref(N, 0);
  for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < K; ++j) { const size_t x = row ? i : j, y = row ? j : i; if (r.p(.5)) d.set(x, y, T(r.in(-3, 3)) * T(r.p(.5) ? 1 : .5)); if (r.p(.35)) { a.set(x, y, T(1)); ++ref[i]; } }
  for (size_t i = 0; i < N; ++i) if (!ref[i]) { a.set(row ? i : 0, row ? 0 : i, T(1)); ref[i] = 1; }   // a reference row is never empty in a structurally valid matrix
  M A = to_hif<M>(d, r.p(.5) ? &r : nullptr), R = to_hif<M>(a); const double al = r.p(.15) ? 0 : r.in(1, 10) * .25;
  show("L_E/U_F", d); show("reference", a); ctx() << "alpha " << al << "\n";
  std::vector<T> buf(K + N + 2); std::vector<int> ib(K + N + 2); Ref::run(R.ind_start(), al, A, buf, ib);
  CHECK(A.nrows() == nr && A.ncols() == nc, "dimensions changed"); auto e = dense_of(A, "dropped block", false);
  for (size_t i = 0; i < N; ++i) {
    size_t o = 0, k = 0; double lo = 1e300; auto at = [&](const Dense<T> &z, size_t j) { return row ? z(i, j) : z(j, i); }; auto hs = [&](const Dense<T> &z, size_t j) { return row ? z.has(i, j) : z.has(j, i); };
    for (size_t j = 0; j < K; ++j) { if (hs(d, j)) ++o; if (hs(e, j)) { ++k; CHECK(hs(d, j), "entry %zu of %zu appeared", j, i); CHECK(at(e, j) == at(d, j), "value of entry %zu of %zu changed", j, i); lo = std::min(lo, (double)std::abs(at(e, j))); } }
    const size_t lim = al > 0 ? (size_t)std::ceil(al * ref[i]) : 0; CHECK(k == std::min(o, lim), "line %zu keeps %zu of %zu entries, limit %zu", i, k, o, lim);
    for (size_t j = 0; j < K; ++j) if (hs(d, j) && !hs(e, j)) CHECK((double)std::abs(at(d, j)) <= lo, "line %zu: dropped entry larger than a kept one", i);
  }
  nontrivial(hash(ctx().str()));
}
struct RL { template <class P, class M, class B, class I> static void run(const P &p, double a, M &m, B &b, I &i) { drop_L_E<M>(p, a, m, b, i); } };
struct RU { template <class P, class M, class B, class I> static void run(const P &p, double a, M &m, B &b, I &i) { drop_U_F<M>(p, a, m, b, i); } };
int main(int c, char **v) {
  return run(c, v, {{"history<double>", history<double, int>}, {"history<complex,long>", history<std::complex<double>, long>}, {"history<float>", history<float, int>},
    {"num<double>", num<double>}, {"num<complex>", num<std::complex<double>>}, {"space<double>", space<double>}, {"space<complex>", space<std::complex<double>>}, {"space<float>", space<float>},
    {"drop_L_E", offsets<CRS<double, int>, RL>}, {"drop_U_F", offsets<CCS<double, int>, RU>}, {"drop_L_E<complex,long>", offsets<CRS<std::complex<double>, int, long>, RL>}, {"drop_U_F<float>", offsets<CCS<float, int>, RU>}});
}
