// P15 bounded contract harness: histories of pushes, interchanges, deferrals and copies on augmented storages against a dense model.
#include "nathif.hpp"
#include "hif/ds/AugmentedStorage.hpp"
using namespace nat; using namespace hif;
typedef std::complex<double> Z;
template <class A> struct Ac { };
template <class C> struct Ac<AugCRS<C>> {
  typedef AugCRS<C> M; static const bool rows = true;
  static void begin(M &a) { a.begin_assemble_rows(); } static void end(M &a) { a.end_assemble_rows(); } static void empty(M &a, size_t i) { a.push_back_empty_row(i); }
  template <class I, class V> static void push(M &a, size_t i, I f, I l, const V &v) { a.push_back_row(i, f, l, v); }
  template <class I, class V> static void push2(M &a, size_t i, I f, I l, const V &v, I g, I h, const V &w) { a.push_back_row(i, f, l, v, g, h, w); }
  static void swap(M &a, size_t i, size_t k, bool alt) { alt ? a.interchange_entries(i, k) : a.interchange_cols(i, k); } static void defer(M &a, size_t i, size_t k, bool alt) { alt ? a.defer_entry(i, k) : a.defer_col(i, k); }
  static long start(const M &a, size_t j) { return a.start_col_id(j); } static long next(const M &a, long n) { return a.next_col_id(n); } static long prim(const M &a, long n) { return a.row_idx(n); } static typename C::value_type val(const M &a, long n) { return a.val_from_col_id(n); } static size_t cnt(const M &a, size_t j) { return a.nnz_in_col(j); } static long last(const M &a, size_t j) { return a.secondary_end()[j]; }
};
template <class C> struct Ac<AugCCS<C>> {
  typedef AugCCS<C> M; static const bool rows = false;
  static void begin(M &a) { a.begin_assemble_cols(); } static void end(M &a) { a.end_assemble_cols(); } static void empty(M &a, size_t i) { a.push_back_empty_col(i); }
  template <class I, class V> static void push(M &a, size_t i, I f, I l, const V &v) { a.push_back_col(i, f, l, v); }
  template <class I, class V> static void push2(M &a, size_t i, I f, I l, const V &v, I g, I h, const V &w) { a.push_back_col(i, f, l, v, g, h, w); }
  static void swap(M &a, size_t i, size_t k, bool alt) { alt ? a.interchange_entries(i, k) : a.interchange_rows(i, k); } static void defer(M &a, size_t i, size_t k, bool alt) { alt ? a.defer_entry(i, k) : a.defer_row(i, k); }
  static long start(const M &a, size_t j) { return a.start_row_id(j); } static long next(const M &a, long n) { return a.next_row_id(n); } static long prim(const M &a, long n) { return a.col_idx(n); } static typename C::value_type val(const M &a, long n) { return a.val_from_row_id(n); } static size_t cnt(const M &a, size_t j) { return a.nnz_in_row(j); } static long last(const M &a, size_t j) { return a.secondary_end()[j]; }
};
// model: list of compressed rows, each a map secondary index -> value
template <class T> struct Model { size_t K; std::vector<std::map<long, T>> r; };
template <class M> static void verify(const M &a, const Model<typename M::value_type> &m, const char *w) {
  typedef Ac<M> X; const size_t n = m.r.size();
  CHECK(a.ind_start().size() == n + 1, "%s: start array has length %zu expected %zu", w, (size_t)a.ind_start().size(), n + 1);
  size_t nz = 0; for (auto &q : m.r) nz += q.size();
  CHECK(a.inds().size() == nz && a.vals().size() == nz && (size_t)a.ind_start()[n] == nz, "%s: number of entries", w);
  size_t k = 0;
  for (size_t i = 0; i < n; ++i) { CHECK((size_t)a.ind_start()[i] == k, "%s: start of %zu", w, i); for (auto &e : m.r[i]) { CHECK(a.inds()[k] == e.first, "%s: index list of %zu is wrong or not sorted (position %zu: %ld expected %ld)", w, i, k, (long)a.inds()[k], e.first); CHECK(a.vals()[k] == e.second, "%s: value of entry (%zu,%ld)", w, i, e.first); ++k; } }
  std::vector<char> used(nz, 0);
  for (size_t j = 0; j < m.K; ++j) {
    std::vector<long> want; for (size_t i = 0; i < n; ++i) if (m.r[i].count(j)) want.push_back(i);
    CHECK(X::cnt(a, j) == want.size() && a.nnz_in_secondary(j) == want.size() && (size_t)a.secondary_counts()[j] == want.size(), "%s: list %zu has count %zu expected %zu", w, j, (size_t)X::cnt(a, j), want.size());
    long id = X::start(a, j), lastid = id; CHECK(a.start_aug_id(j) == id, "%s: start id", w);
    for (size_t q = 0; q < want.size(); ++q) {
      CHECK(!M::is_nil(id), "%s: list %zu ends after %zu of %zu entries", w, j, q, want.size()); CHECK(id >= 0 && (size_t)id < nz, "%s: node id out of range", w); CHECK(!used[id], "%s: node visited twice", w); used[id] = 1;
      CHECK(X::prim(a, id) == want[q] && a.primary_idx(id) == want[q], "%s: list %zu visits %ld, expected %ld", w, j, X::prim(a, id), want[q]);
      const long vp = a.val_pos_idx(id); CHECK(vp >= a.ind_start()[want[q]] && vp < a.ind_start()[want[q] + 1] && (size_t)a.inds()[vp] == j, "%s: list %zu reports a wrong position", w, j);
      CHECK(X::val(a, id) == m.r[want[q]].at(j) && a.val_from_aug_id(id) == m.r[want[q]].at(j), "%s: list %zu reports a wrong value at %ld", w, j, want[q]);
      lastid = id; const long nx = X::next(a, id); CHECK(a.next_aug_id(id) == nx, "%s: next id", w); id = nx;
    }
    CHECK(M::is_nil(id), "%s: list %zu has more than %zu entries", w, j, want.size());
    CHECK(want.empty() ? M::is_nil(X::last(a, j)) : X::last(a, j) == lastid, "%s: end of list %zu", w, j);
  }
}
template <class M> static void history(Rng &r) {
  typedef typename M::value_type T; typedef Ac<M> X;
  const size_t K = r.in(1, 9), cap = r.in(0, 8); Model<T> m; m.K = K; M a;
  if (r.p(0.5)) a = X::rows ? M(cap, K, r.p(0.5) ? r.in(0, 20) : 0) : M(K, cap, r.p(0.5) ? r.in(0, 20) : 0); else a.resize(X::rows ? cap : K, X::rows ? K : cap);
  if (r.p(0.4)) a.reserve(r.in(0, 30)); ctx() << "K=" << K << "\n";
  const double dens = r.d(0, 1);
  if (r.p(0.25)) { // start from an existing matrix
    auto d = rand_dense<T>(r, X::rows ? cap : K, X::rows ? K : cap, dens); show("built from", d);
    typedef typename std::conditional<X::rows, CRS<T, int>, CCS<T, int>>::type C; C c = to_hif<C>(d); 
    if (c.nnz() || true) { const bool cl = r.p(0.5); bool ok = c.status() != DATA_UNDEF; if (!ok) return; a.build_aug(c, cl); m.r.resize(cap); for (size_t i = 0; i < d.m; ++i) for (size_t j = 0; j < d.n; ++j) if (d.has(i, j)) m.r[X::rows ? i : j][X::rows ? j : i] = d(i, j); verify(a, m, "built"); if (!cl) a = M(a, true); same(dense_of(c, "source"), d, "source"); }
  } else X::begin(a);
  const int steps = r.in(1, 25); std::vector<T> v(K), w(K);
  for (int s = 0; s < steps; ++s) {
    const int op = r.in(0, 9);
    if (op <= 3 && m.r.size() < cap) {
      std::vector<int> ids; for (size_t j = 0; j < K; ++j) if (r.p(dens)) ids.push_back(j);
      const size_t i = m.r.size(); const size_t cut = r.in(0, (int)ids.size()); for (size_t j = 0; j < K; ++j) { v[j] = Val<T>::get(r); w[j] = Val<T>::get(r); }
      const bool two = r.p(0.4); std::map<long, T> row; for (size_t q = 0; q < ids.size(); ++q) row[ids[q]] = (two && q >= cut) ? w[ids[q]] : v[ids[q]];
      ctx() << "push" << (two ? "2" : "") << " " << i << ":"; for (auto &e : row) ctx() << " " << e.first << "=" << e.second; ctx() << "\n";
      if (ids.empty() && r.p(0.5)) X::empty(a, i);
      else if (two) X::push2(a, i, ids.cbegin(), ids.cbegin() + cut, v, ids.cbegin() + cut, ids.cend(), w);
      else X::push(a, i, ids.cbegin(), ids.cend(), v);
      m.r.push_back(row);
    } else if (op <= 7) {
      const size_t i = r.in(0, (int)K - 1), k = r.in(0, (int)K - 1); ctx() << "swap " << i << " " << k << "\n"; X::swap(a, i, k, r.p(0.3));
      for (auto &q : m.r) { bool hi = q.count(i), hk = q.count(k); T vi = hi ? q[i] : T(0), vk = hk ? q[k] : T(0); if (i == k) continue; q.erase(i); q.erase(k); if (hi) q[k] = vi; if (hk) q[i] = vk; }
    } else if (op == 8) {
      // defer to an empty entry beyond all stored ones
      long top = -1; for (auto &q : m.r) if (!q.empty()) top = std::max(top, q.rbegin()->first);
      if (K < 2) continue; const size_t i = r.in(0, (int)K - 2); long to = std::max<long>(top, i) + 1; if (to >= (long)K) continue; to = r.in(to, (int)K - 1); ctx() << "defer " << i << " " << to << "\n"; X::defer(a, i, to, r.p(0.3));
      for (auto &q : m.r) if (q.count(i)) { q[to] = q[i]; q.erase(i); }
    } else { ctx() << "copy\n"; M b(a, true); if (K > 1) { X::swap(b, 0, K - 1, false); X::swap(b, 0, K - 1, false); } verify(b, m, "copy"); if (r.p(0.5)) a = std::move(b); }
    verify(a, m, "after step");
  }
  nontrivial(hash(ctx().str()));
}
int main(int argc, char **argv) { return nat::run(argc, argv, Cases{{"AugCRS", history<AugCRS<CRS<double, int>>>}, {"AugCCS", history<AugCCS<CCS<double, int>>>}, {"AugCRS complex", history<AugCRS<CRS<Z, int>>>}, {"AugCCS complex", history<AugCCS<CCS<Z, int>>>}}); }
