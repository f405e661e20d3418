// P06 bounded contract harness: random histories of Array operations on several handles against a buffer-sharing model.
#include <memory>
#include "nathif.hpp"
#include "hif/ds/PermMatrix.hpp"
using namespace nat; using namespace hif;
struct Tr { static long live; double v; Tr(double x = -9) : v(x) { ++live; } Tr(const Tr &o) : v(o.v) { ++live; } ~Tr() { --live; } Tr &operator=(const Tr &) = default; bool operator==(const Tr &o) const { return v == o.v; } };
long Tr::live = 0;
template <class T> struct Mk { static T get(Rng &r) { return T(r.in(-50, 50)); } };
struct Buf { int id; };
template <class T> struct H { Array<T> *a; std::shared_ptr<std::vector<T>> buf; size_t size = 0; int st = DATA_UNDEF; const T *ext = nullptr; };   // buf: model of the underlying buffer
template <class T> struct Ext { std::vector<T> d; };
template <class T> static void check(const std::vector<H<T>> &h, const std::vector<std::vector<T>> &ext, const std::vector<std::vector<T>> &ext0, const char *op) {
  for (size_t k = 0; k < h.size(); ++k) {
    const Array<T> &a = *h[k].a;
    CHECK(a.size() == h[k].size, "%s: array %zu has size %zu, expected %zu", op, k, (size_t)a.size(), h[k].size);
    CHECK(a.empty() == (h[k].size == 0), "%s: array %zu empty() = %d with size %zu", op, k, (int)a.empty(), h[k].size);
    CHECK(a.capacity() >= a.size(), "%s: array %zu capacity %zu below size", op, k, (size_t)a.capacity());
    CHECK((size_t)(a.end() - a.begin()) == h[k].size && (size_t)(a.cend() - a.cbegin()) == h[k].size && a.begin() == a.data(), "%s: iterators of array %zu", op, k);
    if (h[k].st == DATA_WRAP) CHECK(a.data() == h[k].ext && a.status() == DATA_WRAP, "%s: array %zu no longer wraps its data", op, k);
    else CHECK(a.status() != DATA_WRAP, "%s: array %zu wraps unexpectedly", op, k);
    if (h[k].size) CHECK(a.status() == h[k].st, "%s: array %zu status %d expected %d", op, k, (int)a.status(), h[k].st);
    for (size_t i = 0; i < h[k].size; ++i) CHECK(a[i] == (*h[k].buf)[i], "%s: array %zu element %zu differs", op, k, i);
    if (h[k].size) { CHECK(a.front() == (*h[k].buf)[0], "front"); CHECK(a.back() == (*h[k].buf)[h[k].size - 1], "back"); CHECK(a.at(h[k].size - 1) == a.back(), "at"); }
    for (size_t j = 0; j < h.size(); ++j) if (j != k && h[j].size && h[k].size) CHECK((h[j].a->data() == h[k].a->data()) == (h[j].buf == h[k].buf || (h[j].ext && h[j].ext == h[k].ext)), "%s: arrays %zu and %zu %s", op, j, k, h[j].buf == h[k].buf ? "should share" : "should be independent");
    static unsigned cnt = 0; if (++cnt % 997) continue; bool thrown = false; try { a.at(h[k].size); } catch (std::exception &) { thrown = true; } CHECK(thrown, "%s: at(size) of array %zu accepted", op, k);
  }
}
template <class T> static void history(Rng &r) {
  const size_t K = r.in(1, 5); std::vector<H<T>> h(K);
  std::vector<std::vector<T>> ext(2), ext0; for (auto &e : ext) { size_t n = r.in(1, 9); for (size_t i = 0; i < n; ++i) e.push_back(Mk<T>::get(r)); }
  std::vector<std::shared_ptr<std::vector<T>>> eb; for (auto &e : ext) eb.push_back(std::make_shared<std::vector<T>>(e));
  auto grow = [&](H<T> &x, size_t n, bool keep) {   // effect of a size change on the model; undefined elements are set by the harness afterwards
    const size_t cap = x.a->capacity(); (void)cap;
    (void)keep; (void)n; };
  (void)grow;
  for (size_t k = 0; k < K; ++k) {
    H<T> &x = h[k]; const int w = r.in(0, 3); size_t n = r.in(0, 8);
    if (w == 0) { x.a = new Array<T>(); x.buf = std::make_shared<std::vector<T>>(); }
    else if (w == 1) { x.a = new Array<T>(n); x.buf = std::make_shared<std::vector<T>>(n); for (size_t i = 0; i < n; ++i) (*x.a)[i] = (*x.buf)[i] = Mk<T>::get(r); x.size = n; x.st = DATA_OWN; }
    else if (w == 2) { T v = Mk<T>::get(r); x.a = new Array<T>(n, v); x.buf = std::make_shared<std::vector<T>>(n, v); x.size = n; x.st = DATA_OWN; }
    else { size_t e = r.in(0, 1); n = ext[e].size(); x.a = new Array<T>(n, ext[e].data()); x.buf = std::make_shared<std::vector<T>>(*eb[e]); x.size = n; x.st = DATA_OWN; }
    ctx() << "array " << k << ": kind " << w << " size " << x.size << "\n";
  }
  check(h, ext, ext0, "construct");
  auto changed = [&](H<T> &x, size_t oldcap, size_t n, size_t keep) {   // x was resized to n; buffer moved iff n > oldcap
    if (n > oldcap || !x.buf) { auto b = std::make_shared<std::vector<T>>(n); for (size_t i = 0; i < keep && i < n && i < x.size; ++i) (*b)[i] = (*x.buf)[i]; x.buf = b; x.st = DATA_OWN; x.ext = nullptr; }
    else if (x.buf->size() < n) x.buf->resize(n);
    x.size = n;
  };
  auto paint = [&](H<T> &x, size_t from) { for (size_t i = from; i < x.size; ++i) { T v = Mk<T>::get(r); (*x.a)[i] = v; (*x.buf)[i] = v; } };
  const int N = r.in(5, 40);
  for (int step = 0; step < N; ++step) {
    const size_t k = r.in(0, K - 1), l = r.in(0, K - 1); H<T> &x = h[k], &y = h[l]; const int op = r.in(0, 16); const char *nm = "?";
    const size_t cap = x.a->capacity(), osz = x.size; const bool wrap = x.st == DATA_WRAP;
    if (op == 0) { nm = "resize"; size_t n = r.in(0, 20) + (wrap ? cap + 1 : 0); bool pv = !r.p(.2); ctx() << k << ".resize " << n << " " << pv << "\n"; x.a->resize(n, pv); changed(x, cap, n, pv ? osz : 0); CHECK(x.a->capacity() >= n && x.a->capacity() >= cap, "resize: capacity %zu", (size_t)x.a->capacity()); paint(x, n > cap && !pv ? 0 : std::min(osz, n)); }
    else if (op == 1 && !wrap) { nm = "reserve"; size_t n = r.in(0, 30); ctx() << k << ".reserve " << n << "\n"; x.a->reserve(n); CHECK(x.a->capacity() >= n && x.a->capacity() >= cap, "reserve(%zu): capacity %zu", n, (size_t)x.a->capacity()); CHECK(n > cap || x.a->capacity() == cap, "reserve changed a sufficient capacity"); if (n > cap) { x.buf = std::make_shared<std::vector<T>>(x.buf->begin(), x.buf->begin() + x.size); x.st = DATA_OWN; } }
    else if (op <= 3) { nm = "push_back"; T v = Mk<T>::get(r); ctx() << k << ".push_back\n"; x.a->push_back(v); changed(x, cap, osz + 1, osz); (*x.buf)[osz] = v; }
    else if (op == 4 || op == 5) { nm = "push_back range"; std::vector<T> v; for (int i = r.in(wrap, 6); i > 0; --i) v.push_back(Mk<T>::get(r)); ctx() << k << ".push " << v.size() << "\n"; if (op == 4) x.a->push_back(v.begin(), v.end()); else x.a->push_back_n(v.begin(), v.size()); changed(x, cap, osz + v.size(), osz); for (size_t i = 0; i < v.size(); ++i) (*x.buf)[osz + i] = v[i]; }
    else if (op == 6) { nm = "assign"; ctx() << k << " = " << l << "\n"; *x.a = *y.a; if (k != l) { x.buf = y.buf; x.size = y.size; x.st = y.st; x.ext = y.ext; CHECK(x.a->capacity() == y.a->capacity(), "assignment: capacity"); } }
    else if (op == 7) { nm = "move assign"; ctx() << k << " = move " << l << "\n"; *x.a = std::move(*y.a); if (k != l) { x.buf = y.buf; x.size = y.size; x.st = y.st; x.ext = y.ext; y.buf = std::make_shared<std::vector<T>>(); y.size = 0; y.st = DATA_UNDEF; y.ext = nullptr; } }
    else if (op == 8) { nm = "swap"; ctx() << "swap " << k << " " << l << "\n"; x.a->swap(*y.a); if (k != l) { std::swap(x.buf, y.buf); std::swap(x.size, y.size); std::swap(x.st, y.st); std::swap(x.ext, y.ext); } }
    else if (op == 9) { nm = "replace by shallow copy"; ctx() << k << " := shallow " << l << "\n"; if (k != l) { auto *n = new Array<T>(*y.a); delete x.a; x = y; x.a = n; } }
    else if (op == 10) { nm = "replace by deep copy"; ctx() << k << " := deep " << l << "\n"; if (k != l) { auto *n = new Array<T>(*y.a, true); delete x.a; x = y; x.a = n; x.buf = std::make_shared<std::vector<T>>(y.buf->begin(), y.buf->begin() + y.size); x.st = DATA_OWN; x.ext = nullptr; } }
    else if (op == 11) { nm = "replace by move"; ctx() << k << " := move " << l << "\n"; if (k != l) { auto *n = new Array<T>(std::move(*y.a)); delete x.a; x = y; x.a = n; y.buf = std::make_shared<std::vector<T>>(); y.size = 0; y.st = DATA_UNDEF; y.ext = nullptr; } }
    else if (op == 12) { nm = "wrap"; size_t e = r.in(0, 1); ctx() << k << " := wrap " << e << "\n"; delete x.a; x.a = r.p(.5) ? new Array<T>(ext[e].size(), ext[e].data(), true) : new Array<T>(wrap_const_array<T>(ext[e].size(), ext[e].data())); x.buf = eb[e]; x.size = ext[e].size(); x.st = DATA_WRAP; x.ext = ext[e].data(); }
    else if (op == 13) { nm = "write"; if (x.size) { size_t i = r.in(0, x.size - 1); T v = Mk<T>::get(r); ctx() << k << "[" << i << "] = \n"; (*x.a)[i] = v; (*x.buf)[i] = v; } }
    else if (op == 14) { nm = "reset"; ctx() << k << " = Array()\n"; *x.a = Array<T>(); x.buf = std::make_shared<std::vector<T>>(); x.size = 0; x.st = DATA_UNDEF; x.ext = nullptr; }
    else if (op == 15 && !wrap) { nm = "shrink and regrow"; size_t n = x.size ? r.in(0, x.size) : 0; ctx() << k << ".shrink " << n << "\n"; x.a->resize(n); x.a->resize(osz); CHECK(x.a->capacity() == cap, "shrinking changed the capacity"); }
    else if (op == 16 && !wrap && r.p(.4)) {
      bool shared = false; for (size_t j = 0; j < K; ++j) if (j != k && h[j].a->data() == x.a->data() && x.a->data()) shared = true;
      if (!shared) { nm = "steal"; ctx() << k << " steal\n"; T *p; size_t s, c; const bool own = x.a->status() == DATA_OWN; steal_array_ownership(*x.a, p, s, c);
        if (own) { CHECK(s == osz && c == cap, "steal: size %zu capacity %zu", s, c); for (size_t i = 0; i < s; ++i) CHECK(p[i] == (*x.buf)[i], "steal: element %zu", i); delete[] p; } else CHECK(!p && s == 0 && c == 0, "steal from an array without own data");
        x.buf = std::make_shared<std::vector<T>>(); x.size = 0; x.st = DATA_UNDEF; }
    }
    check(h, ext, ext0, nm);
    for (size_t e = 0; e < 2; ++e) for (size_t i = 0; i < ext[e].size(); ++i) CHECK(ext[e][i] == (*eb[e])[i], "%s: wrapped external data changed", nm);
  }
  while (!h.empty()) { size_t k = r.in(0, h.size() - 1); delete h[k].a; h.erase(h.begin() + k); check(h, ext, ext0, "destroy"); }
}
static void convert(Rng &r) { auto v = rand_vec<int>(r, r.in(0, 8)); auto a = arr(v); Array<double> b(a); CHECK(b.size() == v.size(), "conversion size"); for (size_t i = 0; i < v.size(); ++i) CHECK(b[i] == v[i], "conversion element"); if (!v.empty()) { a[0] += 1; CHECK(b[0] == v[0], "conversion is not independent"); } ctx() << "convert " << v.size(); }
#include <memory>
int main(int argc, char **argv) {
  return nat::run(argc, argv, [](Rng &r, uint64_t c) {
    const long l0 = Tr::live;
    if (c % 3 == 0) history<double>(r); else if (c % 3 == 1) history<Tr>(r); else if (c % 30 == 2) convert(r); else history<int>(r);
    CHECK(Tr::live == l0, "%ld elements were not released exactly once", Tr::live - l0);
    nontrivial(hash(ctx().str())); });
}
