// P13 bounded contract harness: every parameter by name (exhaustive over the names), stream input in documented order, defaults through every interface.
#include "nat.hpp"
#include <sstream>
#include <iomanip>
#include "../src/libhifir.cpp"
using namespace nat;
struct Slot { const char *name; bool dbl; double (*get)(const hif::Options &); void (*put)(hif::Options &, double); };
#define S_(f, d) {#f, d, [](const hif::Options &o) -> double { return o.f; }, [](hif::Options &o, double v) { o.f = v; }}
// in the documented order of struct hif_Options
static const Slot slots[] = {S_(tau_L, 1), S_(tau_U, 1), S_(kappa_d, 1), S_(kappa, 1), S_(alpha_L, 1), S_(alpha_U, 1), S_(rho, 1), S_(c_d, 1), S_(c_h, 1), S_(N, 0), S_(verbose, 0), S_(rf_par, 0), S_(reorder, 0), S_(spd, 0), S_(check, 0), S_(pre_scale, 0), S_(symm_pre_lvls, 0), S_(threads, 0), S_(mumps_blr, 0), S_(fat_schur_1st, 0), S_(rrqr_cond, 1), S_(pivot, 0), S_(gamma, 1), S_(beta, 1), S_(is_symm, 0), S_(no_pre, 0), S_(nzp_thres, 1), S_(dense_thres, 0)};
static const size_t NS = sizeof(slots) / sizeof(slots[0]);
struct CSlot { int pos; int slot; };
static const CSlot cslots[] = {{LHF_DROPTOL_L, 0}, {LHF_DROPTOL_U, 1}, {LHF_COND_D, 2}, {LHF_COND, 3}, {LHF_ALPHA_L, 4}, {LHF_ALPHA_U, 5}, {LHF_VERBOSE, 10}, {LHF_REORDER, 12}, {LHF_SYMMPRELVLS, 16}, {LHF_THREADS, 17}, {LHF_RRQR_COND, 20}, {LHF_PIVOT, 21}, {LHF_BETA, 23}, {LHF_ISSYMM, 24}, {LHF_NOPRE, 25}, {LHF_NZP_THRES, 26}, {LHF_DENSE_THRES, 27}};
static double rnd(Rng &r, bool d) { return d ? r.in(-100000, 100000) / 64. : r.in(-100000, 100000); }
static void rndopt(Rng &r, hif::Options &o) { for (auto &s : slots) s.put(o, rnd(r, s.dbl)); }
static void sameall(const hif::Options &a, const hif::Options &b, int except, const char *what) { for (size_t i = 0; i < NS; ++i) if ((int)i != except) CHECK(slots[i].get(a) == slots[i].get(b), "%s: parameter %s is %g, not %g", what, slots[i].name, slots[i].get(a), slots[i].get(b)); }
static void byname(Rng &r) {
  hif::Options o, o0; rndopt(r, o); o0 = o; const size_t k = r.in(0, (int)NS - 1); const bool asint = !slots[k].dbl && r.p(.5), alias = r.p(.5), iv = asint || r.p(.3); const double v = rnd(r, !iv && slots[k].dbl);
  ctx() << slots[k].name << " = " << v << " as " << (iv ? "int" : "double") << (alias ? " set_param_attr" : "") << "\n"; const std::string nm(slots[k].name);
  const bool fail = iv ? (alias ? hif::set_param_attr(nm, (int)v, o) : hif::set_option_attr(nm, (int)v, o)) : (alias ? hif::set_param_attr(nm, v, o) : hif::set_option_attr(nm, v, o));
  CHECK(!fail, "documented name %s refused", slots[k].name); CHECK(slots[k].get(o) == v, "parameter %s is %g after being set to %g", slots[k].name, slots[k].get(o), v); sameall(o, o0, (int)k, "setting one parameter");
  CHECK(hif::internal::option_dtypes[k] == slots[k].dbl, "documented type of %s", slots[k].name); CHECK(hif::internal::option_tag2pos.at(nm) == (int)k, "documented position of %s", slots[k].name);
}
static void unknown(Rng &r) {
  hif::Options o, o0; rndopt(r, o); o0 = o; std::string s; const int how = r.in(0, 3);
  if (how == 0) { for (int n = r.in(0, 8); n > 0; --n) s += (char)r.in(32, 126); } else { s = slots[r.in(0, (int)NS - 1)].name; if (how == 1) s += r.p(.5) ? " " : "x"; else if (how == 2) s[r.in(0, (int)s.size() - 1)] ^= 32; else s = s.substr(0, s.size() - 1); }
  for (auto &t : slots) if (s == t.name) return;
  ctx() << "name '" << s << "'\n";
  CHECK(r.p(.5) ? hif::set_option_attr(s, 3, o) : hif::set_param_attr(s, 2.5, o), "unknown name accepted"); sameall(o, o0, -1, "unknown name");
}
static void stream(Rng &r) {
  hif::Options o, p; rndopt(r, o); rndopt(r, p); std::stringstream ss; ss << std::setprecision(17); for (auto &s : slots) { if (s.dbl) ss << s.get(o); else ss << (int)s.get(o); ss << (r.p(.5) ? " " : "\n"); } ss << "77"; ctx() << ss.str() << "\n";
  ss >> p; sameall(p, o, -1, "reading from a stream"); int x = 0; ss >> x; CHECK(x == 77, "input after the parameters was consumed");
  const std::string t = hif::opt_repr(o); std::istringstream ts(t); std::string nm, v; size_t k = 0, seen = 0;
  while (ts >> nm) { if (nm == "verbose") { std::string l; std::getline(ts, l); ++seen; continue; } ts >> v; for (k = 0; k < NS && nm != slots[k].name; ++k) {} CHECK(k < NS, "text form shows an unknown parameter %s", nm.c_str()); ++seen;
    if (nm == "reorder") CHECK(v == hif::get_reorder_name(o), "text form of reorder"); else if (nm == "check") CHECK(v == (o.check ? "yes" : "no"), "text form of check"); else if (nm == "pivot") CHECK(v == (o.pivot == 0 ? "off" : o.pivot == 1 ? "on" : "auto"), "text form of pivot");
    else CHECK(std::abs(std::stod(v) - slots[k].get(o)) <= 1e-6, "text form of %s shows %s, is %g", nm.c_str(), v.c_str(), slots[k].get(o)); }
  CHECK(seen >= NS - 1, "text form shows only %zu parameters", seen);
}
template <class F> static void sig(Rng &r, F f) { f(r); nontrivial(hash(ctx().str())); }
static void defaults(Rng &r) {
  hif::Options a = hif::get_default_options(), b = hif::get_default_params(), c = hif_get_default_options(), d = hif_get_default_params(), e = hif::DEFAULT_PARAMS; sameall(b, a, -1, "get_default_params"); sameall(c, a, -1, "hif_get_default_options"); sameall(d, a, -1, "hif_get_default_params"); sameall(e, a, -1, "DEFAULT_PARAMS");
  std::vector<double> p(LHF_NUMBER_PARAMS, -7); CHECK(lhfSetDefaultParams(p.data()) == LHF_SUCCESS, "lhfSetDefaultParams"); for (auto &s : cslots) CHECK(p[s.pos] == slots[s.slot].get(a), "C default of %s", slots[s.slot].name);
  CHECK(LHF_NUMBER_PARAMS == 17, "number of C parameter slots");
  // each C slot controls exactly its own option
  for (auto &s : cslots) p[s.pos] = rnd(r, slots[s.slot].dbl); hif::Options q = libhifir_impl::create_params(p.data()), w = a; for (auto &s : cslots) slots[s.slot].put(w, p[s.pos]); sameall(q, w, -1, "C parameter slots");
  auto p2 = p; double v = rnd(r, true); lhfSetDroptol(v, p2.data()); for (int i = 0; i < LHF_NUMBER_PARAMS; ++i) CHECK(p2[i] == (i == LHF_DROPTOL_L || i == LHF_DROPTOL_U ? v : p[i]), "lhfSetDroptol slot %d", i);
  p2 = p; lhfSetAlpha(v, p2.data()); for (int i = 0; i < LHF_NUMBER_PARAMS; ++i) CHECK(p2[i] == (i == LHF_ALPHA_L || i == LHF_ALPHA_U ? v : p[i]), "lhfSetAlpha slot %d", i);
  p2 = p; lhfSetKappa(v, p2.data()); for (int i = 0; i < LHF_NUMBER_PARAMS; ++i) CHECK(p2[i] == (i == LHF_COND || i == LHF_COND_D ? v : p[i]), "lhfSetKappa slot %d", i);
  hif::Options o; rndopt(r, o); hif::Options o0 = o; const int f = r.in(-3, 200); hif::enable_verbose(f, o); sameall(o, o0, 10, "enable_verbose"); CHECK(o.verbose == (f > 0 ? (o0.verbose | f) : 0), "enable_verbose flags");
}
int main(int argc, char **argv) { return run(argc, argv, Cases{{"byname", [](Rng &r) { sig(r, byname); }}, {"unknown", [](Rng &r) { sig(r, unknown); }}, {"stream", [](Rng &r) { sig(r, stream); }}, {"defaults", [](Rng &r) { sig(r, defaults); }}}); }
