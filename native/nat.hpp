// Bounded runtime contract harness support (labelled "bounded": never counted as proved).
#pragma once
#include <cmath>
#include <complex>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <functional>
#include <iostream>
#include <set>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <algorithm>
#include <unistd.h>
extern "C" void __sanitizer_set_death_callback(void (*)(void));
namespace nat {
struct Rng {
  uint64_t s;
  uint64_t u() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  int in(int a, int b) { return a + (int)(u() % (uint64_t)(b - a + 1)); }
  bool p(double x) { return (u() >> 11) * (1.0 / 9007199254740992.0) < x; }
  double d(double a, double b) { return a + (b - a) * ((u() >> 11) * (1.0 / 9007199254740992.0)); }
};
inline std::ostringstream &ctx() { static std::ostringstream o; return o; }
inline uint64_t &caseno() { static uint64_t c = 0; return c; }
inline uint64_t &seed() { static uint64_t c = 1; return c; }
inline std::set<uint64_t> &seen() { static std::set<uint64_t> c; return c; }
inline bool &dying() { static bool c = false; return c; }
inline void dump(const char *what) {
  if (dying()) return;
  dying() = true;
  std::string s = ctx().str();
  if (s.size() > 20000) s.resize(20000);
  printf("FAIL: %s\nseed=%llu case=%llu\ninput:\n%s\n", what, (unsigned long long)seed(), (unsigned long long)caseno(), s.c_str());
  fflush(stdout);
}
inline void die() { dump("sanitizer / abort: memory error, undefined behaviour or crash (details on stderr)"); }
inline void hang(int) { dump("no termination within the per-case time limit"); _exit(1); }
inline void fail(const char *f, ...) {
  char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
  dump(b); _exit(1);
}
#define CHECK(c, ...) do { if (!(c)) nat::fail(__VA_ARGS__); } while (0)
// record a case signature; distinct signatures are counted
inline void nontrivial(uint64_t h) { seen().insert(h); }
inline uint64_t hash(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
struct Opt { uint64_t cases = 1000; double limit = 20; uint64_t only = ~0ull; };
inline int run(int argc, char **argv, const std::function<void(Rng &, uint64_t)> &f) {
  Opt o;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i];
    if (a == "--seed") seed() = strtoull(argv[i + 1], 0, 10);
    else if (a == "--cases") o.cases = strtoull(argv[i + 1], 0, 10);
    else if (a == "--limit") o.limit = atof(argv[i + 1]);
    else if (a == "--only") o.only = strtoull(argv[i + 1], 0, 10);
  }
  __sanitizer_set_death_callback(die);
  signal(SIGALRM, hang);
  auto t0 = std::chrono::steady_clock::now();
  uint64_t n = 0; std::string sample;
  for (uint64_t c = 0; c < o.cases; ++c) {
    if (o.only != ~0ull) { if (c) break; c = o.only; }
    Rng r{seed() * 0x100000001b3ull + c * 0x9e3779b1ull + 12345}; r.u();
    caseno() = c; ctx().str(""); ctx().precision(17);
    alarm(180);
    try { f(r, c); }
    catch (std::exception &e) { fail("unexpected exception: %s", e.what()); }
    ++n;
    if (sample.size() < 20 || (c % 97 == 5 && sample.size() < 400)) { std::string t = ctx().str(); if (t.size() > sample.size()) sample = t.substr(0, 600); }
    if (o.only != ~0ull) break;
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > o.limit) break;
  }
  alarm(0);
  for (char &ch : sample) if (ch == '\n') ch = ';';
  printf("CASES %llu DISTINCT %llu\nSAMPLE %s\n", (unsigned long long)n, (unsigned long long)seen().size(), sample.c_str());
  fflush(stdout);
  return 0;
}
typedef std::vector<std::pair<std::string, std::function<void(Rng &)>>> Cases;
inline int run(int argc, char **argv, const Cases &cs) { return run(argc, argv, [&](Rng &r, uint64_t c) { const auto &k = cs[c % cs.size()]; ctx() << k.first << "\n"; k.second(r); }); }
template <class V> inline std::string str(const V &v, size_t n) { std::ostringstream o; o.precision(17); for (size_t i = 0; i < n; ++i) o << v[i] << ' '; return o.str(); }

// ---- random compressed matrices (value type small integers, exactly representable)
template <class T> struct Val { static T get(Rng &r) { return T(r.in(-4, 4)); } };
template <class F> struct Val<std::complex<F>> { static std::complex<F> get(Rng &r) { return std::complex<F>(r.in(-4, 4), r.in(-4, 4)); } };
template <class T> inline T cj(const T &x) { return x; }
template <class T> inline std::complex<T> cj(const std::complex<T> &x) { return std::conj(x); }
template <class T> struct Dense {
  size_t m, n; std::vector<T> a; std::vector<char> nz;
  Dense(size_t m_ = 0, size_t n_ = 0) : m(m_), n(n_), a(m_ * n_, T(0)), nz(m_ * n_, 0) {}
  T &operator()(size_t i, size_t j) { return a[i * n + j]; }
  const T &operator()(size_t i, size_t j) const { return a[i * n + j]; }
  bool has(size_t i, size_t j) const { return nz[i * n + j]; }
  void set(size_t i, size_t j, T v) { a[i * n + j] = v; nz[i * n + j] = 1; }
};
template <class T> inline Dense<T> rand_dense(Rng &r, size_t m, size_t n, double dens) {
  Dense<T> d(m, n);
  for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) if (r.p(dens)) d.set(i, j, Val<T>::get(r));
  return d;
}
// compressed arrays (row-major if rows), indices sorted or shuffled within each row/column
template <class Ip, class Ix, class T> struct Comp { std::vector<Ip> p; std::vector<Ix> i; std::vector<T> v; };
template <class Ip, class Ix, class T> inline Comp<Ip, Ix, T> comp_of(const Dense<T> &d, bool rows, Rng *shuffle = nullptr) {
  Comp<Ip, Ix, T> c; c.p.push_back(0);
  size_t N = rows ? d.m : d.n, M = rows ? d.n : d.m;
  for (size_t a = 0; a < N; ++a) {
    std::vector<size_t> ids;
    for (size_t b = 0; b < M; ++b) if (rows ? d.has(a, b) : d.has(b, a)) ids.push_back(b);
    if (shuffle) for (size_t k = ids.size(); k > 1; --k) std::swap(ids[k - 1], ids[shuffle->u() % k]);
    for (size_t b : ids) { c.i.push_back((Ix)b); c.v.push_back(rows ? d(a, b) : d(b, a)); }
    c.p.push_back((Ip)c.i.size());
  }
  return c;
}
template <class T> inline void show(const char *nm, const Dense<T> &d) {
  ctx() << nm << " (" << d.m << "x" << d.n << "):\n";
  for (size_t i = 0; i < d.m; ++i) { for (size_t j = 0; j < d.n; ++j) { if (d.has(i, j)) ctx() << d(i, j) << ' '; else ctx() << ". "; } ctx() << '\n'; }
}
template <class V> inline void showv(const char *nm, const V &v, size_t n) { ctx() << nm << ": " << str(v, n) << '\n'; }
}  // namespace nat
