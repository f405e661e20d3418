// P21 bounded contract harness: matrix files round-trip, symmetric storage is expanded, malformed files are errors.
#include "nathif.hpp"
#include "hif/utils/io.hpp"
#include <fstream>
#include <unistd.h>
using namespace nat; using namespace hif;
static const char *FN = "case.mm";
template <class T> struct Wide { static T get(Rng &r) {
  switch (r.in(0, 5)) {
    case 0: return T(r.in(-9, 9));
    case 1: return T(r.d(-1, 1));
    case 2: return std::ldexp(T(r.d(-1, 1)), r.in(-100, 100));
    case 3: { T x = T(r.d(0.1, 1)); for (int k = r.in(0, 3); k > 0; --k) x = std::nextafter(x, T(2)); return x; }
    case 4: return r.p(0.5) ? std::numeric_limits<T>::max() : -std::numeric_limits<T>::min();
    default: return T(1) / T(r.in(1, 99)); } } };
template <class F> struct Wide<std::complex<F>> { static std::complex<F> get(Rng &r) { F a = Wide<F>::get(r); return std::complex<F>(a, Wide<F>::get(r)); } };
static std::string slurp() { std::ifstream f(FN); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void spit(const std::string &t) { std::ofstream f(FN); f << t; }
template <class M> static void shape(Rng &r) {
  typedef typename M::value_type T; typedef typename M::index_type I;
  size_t m = r.in(0, 9), n = r.in(0, 9); if (r.p(0.1)) m = r.in(20, 150); if (r.p(0.1)) n = r.in(20, 150);
  auto d = rand_dense<T>(r, m, n, r.d(0, 1)); for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) if (d.has(i, j)) { T v = Wide<T>::get(r); if (v == T(0)) v = T(3); d(i, j) = v; }
  M A = to_hif<M>(d);
  if (r.p(0.2)) { A.vals().resize(A.vals().size() + 2); A.inds().resize(A.inds().size() + 2); A.inds()[A.inds().size() - 1] = A.inds()[A.inds().size() - 2] = 0; A.vals()[A.vals().size() - 1] = A.vals()[A.vals().size() - 2] = T(7); }   // spare room behind the stored entries
  const std::vector<I> i0(A.inds().begin(), A.inds().end()); const std::vector<T> v0(A.vals().begin(), A.vals().end());
  A.write_mm(FN); ctx() << slurp() << "\n";
  CHECK(A.nrows() == m && A.ncols() == n && eqv(A.inds(), i0, i0.size()) && eqv(A.vals(), v0, v0.size()), "writing changed the matrix");
  M B = M::from_mm(FN); same(dense_of(B, "read back"), d, "read back");
  typename M::other_type C; C.read_mm(FN); same(dense_of(C, "read back into the other storage"), d, "read back into the other storage");
  if (r.p(0.5)) { auto e = rand_dense<T>(r, 3, 4, 0.5); M D = to_hif<M>(e); D.read_mm(FN); same(dense_of(D, "read over another matrix"), d, "read over another matrix"); }
  if (m && n) nontrivial(hash(ctx().str()));
}
template <class T> static void vec(Rng &r) {
  size_t n = r.in(0, 12); if (r.p(0.1)) n = r.in(100, 900);
  std::vector<T> v(n); for (auto &x : v) x = Wide<T>::get(r);
  Array<T> a = arr(v); a.write_mm(FN); if (n < 20) ctx() << slurp() << "\n";
  Array<T> b = Array<T>::from_mm(FN); CHECK(b.size() == n, "vector of size %zu read back with size %zu", n, (size_t)b.size()); CHECK(eqv(b, v, n), "vector values changed");
  Array<T> c(r.in(1, 5)); c.read_mm(FN); CHECK(c.size() == n && eqv(c, v, n), "vector read over another one differs");
  CHECK(eqv(a, v, n), "writing changed the vector"); if (n) nontrivial(hash(ctx().str() + std::to_string(n)));
}
static std::string num(double x, Rng &r) { char b[64]; switch (r.in(0, 2)) { case 0: snprintf(b, 64, "%.17g", x); break; case 1: snprintf(b, 64, "%.16e", x); break; default: snprintf(b, 64, "%+.17g", x); } return b; }
static std::string sp(Rng &r) { const char *k[] = {" ", "  ", "\t", " \t ", " "}; return k[r.in(0, 4)]; }
static std::string cased(std::string s, Rng &r) { if (r.p(0.3)) for (auto &c : s) if (r.p(0.5)) c = toupper(c); return s; }
struct Txt { std::string head; std::vector<std::string> pre; std::string size; std::vector<std::string> lines; std::string str() const { std::string s = head + "\n"; for (auto &x : pre) s += x + "\n"; s += size + "\n"; for (auto &x : lines) s += x + "\n"; return s; } };
template <class T> struct Parts { static double re(T x) { return x; } static double im(T) { return 0; } static T mk(double a, double) { return a; } static const bool C = false; };
template <class F> struct Parts<std::complex<F>> { static double re(std::complex<F> x) { return x.real(); } static double im(std::complex<F> x) { return x.imag(); } static std::complex<F> mk(double a, double b) { return {F(a), F(b)}; } static const bool C = true; };
// a valid file with the matrix it means
template <class T> static Txt make(Rng &r, Dense<T> &d, int type) {
  typedef Parts<T> P; Txt t; const char *nm[] = {"general", "symmetric", "hermitian", "skew-symmetric"};
  size_t m = r.in(type ? 1 : 0, 8), n = type ? m : r.in(0, 8); d = Dense<T>(m, n);
  std::vector<std::pair<size_t, size_t>> e; double dens = r.d(0, 1); bool up = r.p(0.3);
  for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) { if (type && (up ? j < i : j > i)) continue; if (type == 3 && i == j) continue; if (r.p(dens)) e.push_back({i, j}); }
  for (size_t a = e.size(); a > 1; --a) std::swap(e[a - 1], e[r.u() % a]);
  t.head = "%%MatrixMarket " + cased("matrix", r) + sp(r) + cased("coordinate", r) + " " + cased(P::C ? "complex" : "real", r) + sp(r) + cased(nm[type], r);
  for (int k = r.in(0, 3); k > 0; --k) t.pre.push_back(std::string("% a comment 3 3 3 ") + std::string(r.in(0, 200), 'x'));
  t.size = (r.p(0.3) ? " " : "") + std::to_string(m) + sp(r) + std::to_string(n) + sp(r) + std::to_string(e.size());
  for (auto &x : e) {
    T v = Wide<T>::get(r); if (v == T(0)) v = T(2); if (type == 2 && x.first == x.second) v = P::mk(P::re(v), 0);
    t.lines.push_back((r.p(0.2) ? "  " : "") + std::to_string(x.first + 1) + sp(r) + std::to_string(x.second + 1) + sp(r) + num(P::re(v), r) + (P::C ? sp(r) + num(P::im(v), r) : ""));
    d.set(x.first, x.second, v); if (type && x.first != x.second) d.set(x.second, x.first, type == 1 ? v : type == 2 ? cj(v) : -v);
  }
  return t;
}
template <class T> static void expand(Rng &r) {
  Dense<T> d(0, 0); int type = r.in(0, 3); Txt t = make(r, d, type); std::string s = t.str(); if (r.p(0.2)) { s.pop_back(); if (t.lines.empty()) s += "\n"; }
  spit(s); ctx() << s << "\n";
  CRS<T, int> A = CRS<T, int>::from_mm(FN); same(dense_of(A, "row storage of file"), d, "row storage of file");
  CCS<T, int> B = CCS<T, int>::from_mm(FN); same(dense_of(B, "column storage of file"), d, "column storage of file");
  if (r.p(0.3)) { CRS<T, long> C = CRS<T, long>::from_mm(FN); same(dense_of(C, "row storage of file (long indices)"), d, "row storage of file (long indices)"); }
  if (d.m && d.n) nontrivial(hash(s));
}
template <class T> static void densefile(Rng &r) {   // only the first column is taken
  typedef Parts<T> P; size_t m = r.in(1, 9), n = r.in(1, 3); std::vector<T> v; std::string s = "%%MatrixMarket matrix " + cased("array", r) + " " + cased(P::C ? "complex" : "real", r) + " general\n"; for (int k = r.in(0, 2); k > 0; --k) s += "% comment\n";
  s += std::to_string(m) + sp(r) + std::to_string(n) + "\n"; for (size_t k = 0; k < m * n; ++k) { v.push_back(Wide<T>::get(r)); s += num(P::re(v.back()), r) + (P::C ? sp(r) + num(P::im(v.back()), r) : "") + "\n"; }
  spit(s); ctx() << s; Array<T> a = Array<T>::from_mm(FN); CHECK(a.size() == m && eqv(a, v, m), "first column of a dense file differs"); nontrivial(hash(s));
}
template <class F> static bool throws(const F &f) { try { f(); return false; } catch (const std::exception &) { return true; } }
static std::string long_tok(Rng &r) { return std::string(r.in(70, 900), 'a' + r.in(0, 25)); }
template <class T> static void malformed(Rng &r) {
  typedef Parts<T> P; Dense<T> d(0, 0); int type = r.in(0, 3); Txt t = make(r, d, type); std::string s; std::string what;
  auto setline = [&](size_t k, long i, long j) { t.lines[k] = std::to_string(i) + " " + std::to_string(j) + " 1.5" + (P::C ? " 2.5" : ""); };
  const size_t L = t.lines.size(); const size_t k = L ? r.u() % L : 0; long M = d.m, N = d.n;
  const long bad[] = {0, -1, -5, 2147483648L, 4294967297L, 1000000};
  switch (r.in(0, 15)) {
    case 0: if (!L) return; what = "fewer entries than announced"; t.lines.resize(r.in(0, (int)L - 1)); s = t.str(); break;
    case 1: if (!L) return; what = "entry cut in the middle"; t.lines.resize(k + 1); t.lines[k] = t.lines[k].substr(0, r.in(0, (int)std::max<size_t>(1, t.lines[k].find_first_of(" \t", t.lines[k].find_first_not_of(" \t"))))); s = t.str(); s.pop_back(); break;
    case 2: if (!L) return; what = "row index out of range"; { long b = r.p(0.4) ? M + r.in(1, 3) : bad[r.in(0, 5)]; setline(k, b, 1); } s = t.str(); break;
    case 3: if (!L) return; what = "column index out of range"; { long b = r.p(0.4) ? N + r.in(1, 3) : bad[r.in(0, 5)]; setline(k, 1, b); } s = t.str(); break;
    case 4: what = "wrong banner"; t.head = (r.p(0.5) ? "%%MatrixMarke" : "MatrixMarket") + t.head.substr(14); s = t.str(); break;
    case 5: { what = "unknown word in the first line"; std::istringstream is(t.head); std::vector<std::string> w; std::string x; while (is >> x) w.push_back(x); size_t q = r.in(1, 4); w[q] = r.p(0.5) ? long_tok(r) : w[q] + "s"; if (r.p(0.3) && q == 3) w[q] = r.p(0.5) ? "pattern" : "integer"; t.head = ""; for (auto &y : w) t.head += y + " "; s = t.str(); break; }
    case 6: { what = "missing words in the first line"; size_t q = t.head.find_last_of(" \t"); t.head = t.head.substr(0, q); if (r.p(0.3)) t.head = ""; s = t.str(); break; }
    case 7: what = "size line that is no number"; t.size = r.p(0.5) ? "abc" : "3 x 3"; s = t.str(); break;
    case 8: { what = "negative sizes"; int q = r.in(0, 2); t.size = (q == 0 ? "-3 " : std::to_string(M) + " ") + (q == 1 ? "-4 " : std::to_string(N) + " ") + (q == 2 ? "-1" : std::to_string(L)); s = t.str(); break; }
    case 9: what = "file without size line"; t.lines.clear(); t.size = ""; s = t.str(); if (r.p(0.5)) s = t.head; break;
    case 10: what = "value type differs"; { std::string h = t.head; size_t q = std::string::npos; for (auto &c : h) c = tolower(c); const char *a = P::C ? "complex" : "real"; q = h.find(a); t.head.replace(q, strlen(a), P::C ? "real" : "complex"); } s = t.str(); break;
    case 11: what = "dense file read as sparse"; { std::string h = t.head; for (auto &c : h) c = tolower(c); size_t q = h.find("coordinate"); t.head.replace(q, 10, "array"); } s = t.str(); break;
    case 12: if (!L) return; what = "value that is no number"; t.lines[k] = "1 1 x"; s = t.str(); break;
    case 13: if (!L) return; what = "fractional index"; t.lines[k] = std::string("1.5 1 2") + (P::C ? " 2.5" : ""); s = t.str(); break;
    case 14: if (!type || !L) return; what = "symmetric storage of a rectangular matrix with an entry outside"; M = d.m; { long i = M + 2, j = 1; t.size = std::to_string(M + 2) + " " + std::to_string(M) + " " + std::to_string(L); setline(k, i, j); } s = t.str(); break;
    default: what = "empty file"; s = r.p(0.5) ? "" : "\n"; break;
  }
  spit(s); ctx() << what << "\n" << s << "\n";
  CHECK(throws([] { CRS<T, int>::from_mm(FN); }), "malformed file accepted (row storage): %s", what.c_str());
  CHECK(throws([] { CCS<T, int>::from_mm(FN); }), "malformed file accepted (column storage): %s", what.c_str());
  if (what != "dense file read as sparse") CHECK(throws([] { Array<T>::from_mm(FN); }), "malformed file accepted as a vector: %s", what.c_str());
  nontrivial(hash(s));
}
template <class T> static void badvec(Rng &r) {
  typedef Parts<T> P; int n = r.in(1, 9); std::string h = std::string("%%MatrixMarket matrix array ") + (P::C ? "complex" : "real") + " general", z = std::to_string(n) + " 1", what; std::vector<std::string> l; for (int k = 0; k < n; ++k) l.push_back(num(r.d(-1, 1), r) + (P::C ? " " + num(r.d(-1, 1), r) : ""));
  switch (r.in(0, 7)) {
    case 0: what = "fewer values than announced"; l.resize(r.in(0, n - 1)); break;
    case 1: what = "value that is no number"; l[r.in(0, n - 1)] = "x"; break;
    case 2: what = "negative size"; z = r.p(0.5) ? "-3 1" : std::to_string(n) + " -1"; break;
    case 3: what = "size line that is no number"; z = "foo bar"; break;
    case 4: what = "type differs"; h = std::string("%%MatrixMarket matrix array ") + (P::C ? "real" : "complex") + " general"; break;
    case 5: what = "sparse file read as vector"; h = std::string("%%MatrixMarket matrix coordinate ") + (P::C ? "complex" : "real") + " general"; z = "1 1 1"; l.assign(1, P::C ? "1 1 1 1" : "1 1 1"); break;
    case 6: what = "overlong word"; h = "%%MatrixMarket " + (r.p(0.5) ? "matrix array real " + long_tok(r) : long_tok(r) + " array real general"); break;
    default: what = "no sizes"; z = ""; l.clear(); break;
  }
  std::string s = h + "\n" + z + "\n"; for (auto &x : l) s += x + "\n"; spit(s); ctx() << what << "\n" << s;
  CHECK(throws([] { Array<T>::from_mm(FN); }), "malformed vector file accepted: %s", what.c_str());
  if (what != "sparse file read as vector") CHECK(throws([] { CRS<T, int>::from_mm(FN); }), "malformed vector file accepted as matrix: %s", what.c_str());
  nontrivial(hash(s));
}
template <class T> static void garbage(Rng &r) {   // random damage: an error or a structurally valid matrix, never a crash or a hang
  Dense<T> d(0, 0); std::string s = make(r, d, r.in(0, 3)).str(); size_t b = s.find('\n') + 1;
  for (int k = r.in(1, 4); k > 0; --k) { size_t q = r.p(0.7) ? b + r.u() % (s.size() - b + 0 ? s.size() - b : 1) : r.u() % s.size(); if (q >= s.size()) continue; const char *cs = " \n\t.-+%ax019e"; switch (r.in(0, 2)) { case 0: s[q] = cs[r.in(0, 11)]; break; case 1: s.erase(q, 1); break; default: s.insert(q, 1, cs[r.in(0, 8)]); } }
  // keep announced sizes small (a huge but well-formed announcement may legitimately allocate)
  { std::istringstream is(s); std::string ln; std::getline(is, ln); while (std::getline(is, ln) && (ln.empty() || ln[0] == '%' || ln.find_first_not_of(" \t") == std::string::npos)) {} long x; std::istringstream ls(ln); while (ls >> x) if (x > 100000) return; }
  spit(s); ctx() << s << "\n";
  try { CRS<T, int> A = CRS<T, int>::from_mm(FN);
    CHECK(A.row_start().size() == A.nrows() + 1 && A.row_start()[0] == 0, "start array of a matrix read from a damaged file");
    for (size_t i = 0; i < A.nrows(); ++i) { CHECK(A.row_start()[i] <= A.row_start()[i + 1], "start array decreases"); for (int k = A.row_start()[i]; k < A.row_start()[i + 1]; ++k) CHECK(A.col_ind()[k] >= 0 && (size_t)A.col_ind()[k] < A.ncols(), "index out of range in a matrix read from a damaged file"); }
  } catch (const std::exception &) {}
  try { Array<T>::from_mm(FN); } catch (const std::exception &) {}
  nontrivial(hash(s));
}
template <class T> static void writefail(Rng &r) {
  auto d = rand_dense<T>(r, r.in(1, 20), r.in(1, 20), 0.7); CRS<T, int> A = to_hif<CRS<T, int>>(d); CCS<T, int> B = to_hif<CCS<T, int>>(d); Array<T> v = arr(rand_vec<T>(r, r.in(1, 300)));
  const char *dst[] = {"/dev/full", "no/such/folder/x.mm"}; const char *f = dst[r.in(0, 1)]; if (f[1] == 'd' && access(f, W_OK)) return; ctx() << f << "\n";
  CHECK(throws([&] { A.write_mm(f); }), "failed write of a matrix not reported"); CHECK(throws([&] { B.write_mm(f); }), "failed write of a matrix not reported"); CHECK(throws([&] { v.write_mm(f); }), "failed write of a vector not reported");
  CHECK(throws([&] { CRS<T, int>::from_mm("no/such/file"); }) && throws([&] { Array<T>::from_mm("no/such/file"); }), "missing file accepted");
  nontrivial(hash(ctx().str() + std::to_string(r.u())));
}
typedef std::complex<double> Z; typedef std::complex<float> C;
template <class T> static void both(Rng &r) { if (r.p(0.5)) shape<CRS<T, int>>(r); else shape<CCS<T, int>>(r); }
static void shapel(Rng &r) { if (r.p(0.5)) shape<CRS<double, long>>(r); else shape<CCS<Z, long, long>>(r); }
template <template <class> class> struct X;
#define ALL4(nm, f) {nm " double", f<double>}, {nm " complex", f<Z>}, {nm " float", f<float>}, {nm " complex float", f<C>}
int main(int argc, char **argv) {
  return run(argc, argv, Cases{ALL4("round trip", both), ALL4("vector", vec), ALL4("expansion", expand), ALL4("dense file", densefile), ALL4("malformed", malformed), ALL4("malformed vector", badvec), ALL4("garbage", garbage), ALL4("write failure", writefail), {"round trip long", shapel}});
}
