// P23: names, electron counts, functionals
#include "vf.h"
#include "util.h"
#include <helfem.h>
#include <general/elements.h>
#include <general/dftfuncs.h>
#include <general/scf_helpers.h>
#include <general/scf_driver_common.h>
#include <atomic>
#include <strings.h>
#include <fstream>
#include <thread>
extern "C" {
#include <xc.h>
}
using namespace helfem;
#ifdef XC_FLAGS_NEEDS_TAU
#define NEEDS_TAU(in) ((in)->flags & XC_FLAGS_NEEDS_TAU)
#else  // a library without the flag: every meta-GGA counts as using tau
#define NEEDS_TAU(in) true
#endif

static const char *SYM = "H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og";
static std::vector<std::string> words(const char *s) { std::istringstream i(s); std::vector<std::string> r(1, ""); std::string w; while (i >> w) r.push_back(w); return r; }
static std::string recase(vf::Rng &g, std::string s) { for (char &c : s) c = g.coin() ? toupper(c) : tolower(c); return s; }

VF_SECTION("elements") {
  auto &g = c.rng; auto sym = words(SYM);
  c.m.begin("periodic table"); c.m.require("table_size", sizeof(element_symbols) / sizeof(element_symbols[0]) == 119 && sizeof(element_names) / sizeof(element_names[0]) == 119);
  std::set<std::string> nm; for (int Z = 1; Z <= 118; Z++) { c.m.require("symbol", element_symbols[Z] == sym[Z], sym[Z]); c.m.require("name_unique", nm.insert(element_names[Z]).second && element_names[Z].size() > 2); }
  for (int Z = 1; Z <= 118; Z++) {
    c.m.begin("element " + sym[Z]); c.m.require("symbol_number", get_Z(sym[Z]) == Z, sym[Z]);
    for (int k = 0; k < c.n(8, 16); k++) { auto s = recase(g, sym[Z]); c.m.require("symbol_case", get_Z(s) == Z, s); }
    c.m.require("number_number", get_Z(std::to_string(Z)) == Z); c.m.require("inverse", element_symbols[get_Z(std::to_string(Z))] == sym[Z]);
    for (std::string bad : {sym[Z] + "q", sym[Z] + "1", sym[Z] + " ", "Q" + sym[Z], sym[Z] + "-"}) { bool known = false; for (auto &s : sym) known |= strcasecmp(s.c_str(), bad.c_str()) == 0; if (!known) c.m.require("unknown_symbol_refused", !vf::thrown([&] { get_Z(bad); }).empty(), bad); }
    for (std::string bad : {std::to_string(Z) + "x", std::to_string(Z) + ".5", std::to_string(Z) + sym[Z], "?" + sym[Z], std::string("-"), std::string("+"), std::to_string(Z) + " 1"}) c.m.require("malformed_number_refused", !vf::thrown([&] { get_Z(bad); }).empty(), bad);
  }
  c.m.begin("special strings"); c.m.require("no_nucleus", get_Z("") == 0 && get_Z("0") == 0 && get_Z("-1") == -1);
  for (int it = 0; it < c.n(3000, 50000); it++) { int n = g.integer(1, 4); std::string s; for (int i = 0; i < n; i++) s += (char)('a' + g.integer(0, 25)); s = recase(g, s); int want = 0; for (int Z = 1; Z <= 118; Z++) { std::string t = sym[Z], u = s; for (char &ch : t) ch = tolower(ch); for (char &ch : u) ch = tolower(ch); if (t == u) want = Z; } int got = 0; std::string t = vf::thrown([&] { got = get_Z(s); }); c.m.begin("letters " + s); c.m.require("letters", want ? t.empty() && got == want : !t.empty(), s); }
  // shells in Madelung order
  struct Sh { int n, l, z; }; std::vector<Sh> sh; for (int n = 1; n < 9; n++) for (int l = 0; l < n && l < 4; l++) sh.push_back({n, l, 0}); std::sort(sh.begin(), sh.end(), [](const Sh &a, const Sh &b) { return a.n + a.l != b.n + b.l ? a.n + a.l < b.n + b.l : a.n < b.n; }); int z = 1; for (auto &s : sh) { s.z = z; z += 2 * (2 * s.l + 1); }
  for (int a = 0; a <= 118; a++) for (int b = 0; b <= 118; b += c.thorough ? 1 : 7) { int w[4] = {0, 0, 0, 0}, o[4] = {9, 9, 9, 9}; for (int Z : {a, b}) for (auto &s : sh) if (Z >= s.z) for (int m = 0; m <= s.l; m++) w[m]++; num_orbs(a, b, o[0], o[1], o[2], o[3]); c.m.begin(vf::fmt("minimal basis Z=%d,%d", a, b)); for (int m = 0; m < 4; m++) c.m.require("valence_orbitals", w[m] == o[m], vf::fmt("m=%d got=%d want=%d", m, o[m], w[m])); }
}

// the only spin populations with the requested number of electrons and multiplicity
static bool model(int nel, int M, int &a, int &b) { for (a = 0; a <= std::max(nel, 0); a++) { b = nel - a; if (b >= 0 && a - b + 1 == M && a >= b) return true; } return false; }
VF_SECTION("populations") {
  auto &g = c.rng;
  for (int Z = -2; Z <= 120; Z += (Z < 12 || c.thorough) ? 1 : 5) for (int Q = -6; Q <= Z + 3; Q += (Z < 12 || c.thorough) ? 1 : g.integer(1, 9)) for (int M = -2; M <= Z - Q + 3; M += (Z < 12) ? 1 : g.integer(1, 5)) {
    int a = 0, b = 0, q = Q, m = M, wa, wb; std::string t = vf::thrown([&] { scf::parse_nela_nelb(a, b, q, m, Z); }); c.m.begin(vf::fmt("Z=%d Q=%d M=%d", Z, Q, M));
    if (model(Z - Q, M, wa, wb)) { if (Z - Q > 0) c.m.require("populations", t.empty() && a == wa && b == wb && q == Q && m == M, vf::fmt("%d %d %s", a, b, t.c_str())); else c.m.require("populations", !t.empty() || (a == 0 && b == 0)); } else c.m.require("impossible_multiplicity_refused", !t.empty(), vf::fmt("%d %d", a, b));
    for (int restr : {-1, 0, 1}) { int na = 0, nb = 0, r = restr, N = -7; bool re = false; std::string u = vf::thrown([&] { scf_driver::derive_nela_nelb_restricted(na, nb, r, Q, M, Z, re, N); }); int nel = Z - Q;
      if (M == 0) { bool ok = nel > 0 && restr != 0; c.m.require("restricted_without_multiplicity", ok ? u.empty() && N == nel && re && r == 1 && na + nb == nel && na - nb >= 0 && na - nb <= 1 : !u.empty(), vf::fmt("restr=%d %d %d %s", restr, na, nb, u.c_str())); }
      else if (model(nel, M, wa, wb) && nel > 0) c.m.require("driver_populations", u.empty() && na == wa && nb == wb && N == nel && re == (restr == -1 ? wa == wb : restr == 1) && r == (int)re, vf::fmt("restr=%d %d %d", restr, na, nb)); else if (nel != 0) c.m.require("driver_refuses", !u.empty()); }
  }
  for (int it = 0; it < c.n(2000, 40000); it++) { int Z = g.integer(0, 60), a = g.integer(-3, 60), b = g.integer(-3, 60), Q = 99, M = 99, na = a, nb = b; if (!a && !b) continue; c.m.begin(vf::fmt("explicit Z=%d nela=%d nelb=%d", Z, a, b)); std::string t = vf::thrown([&] { scf::parse_nela_nelb(na, nb, Q, M, Z); });
    if (a < b || a < 0 || b < 0) c.m.require("impossible_populations_refused", !t.empty(), vf::fmt("M=%d", M)); else c.m.require("explicit_populations", t.empty() && na == a && nb == b && Q == Z - a - b && M == a - b + 1, t); }
}

VF_SECTION("parameters") {
  auto &g = c.rng; for (int it = 0; it < c.n(1500, 20000); it++) {
    int n = g.integer(0, 12); std::vector<double> v(n); std::string s; const char *ws[] = {" ", "  ", "\t", "\n", " \n ", "\r\n"}; bool lead = g.coin(0.3), trail = g.coin(0.3); if (lead && n) s += ws[g.integer(0, 5)]; for (int i = 0; i < n; i++) { v[i] = g.coin(0.2) ? g.integer(-5, 5) : g.gauss() * g.loguniform(1e-12, 1e12); if (i) s += ws[g.integer(0, 5)]; s += vf::fmt(g.coin() ? "%.17g" : "%.17e", v[i]); } if (trail && n) s += ws[g.integer(0, 5)];
    bool file = g.coin(0.4); std::string arg = s; if (file) { arg = c.scratch + vf::fmt("/par_%d.txt", it); std::ofstream(arg) << s; if (!n) v.clear(); } c.m.begin(vf::fmt("parameters %d n=%d file=%d", it, n, (int)file));
    Vector p; std::string t = vf::thrown([&] { p = scf::parse_xc_params(arg); }); if (file && !n) { c.m.require("empty_file", !t.empty() || p.size() == 0); } else if (c.m.require("parameters_parse", t.empty(), t)) { bool ok = p.size() == n; for (int i = 0; ok && i < n; i++) ok = p(i) == v[i]; c.m.require("parameters_exact", ok, s); }
    // something that is not a number in the list must not shorten it silently
    std::string bad = s; const char *junk[] = {"abc", ",", "0.1.2", "1e", "--3", "0.5;", "x1"}; size_t pos = 0; std::string j = junk[g.integer(0, 6)]; bad = g.coin() ? j + " " + s : n ? s + " " + j : j; if (file) { std::ofstream(arg) << bad; bad = arg; } c.m.require("malformed_parameters_refused", !vf::thrown([&] { scf::parse_xc_params(bad); }).empty(), j); (void)pos; if (file) unlink(arg.c_str()); else c.m.require("missing_file_refused", !vf::thrown([&] { scf::parse_xc_params(c.scratch + "/does_not_exist.par"); }).empty());
  }
  c.m.begin("no parameters"); c.m.require("no_parameters", scf::parse_xc_params("").size() == 0);
}

static std::vector<int> ids() { int n = xc_number_of_functionals(); std::vector<int> v(n); xc_available_functional_numbers(v.data()); return v; }
struct Fn { xc_func_type f; bool ok; Fn(int id, int spin = XC_UNPOLARIZED) { ok = xc_func_init(&f, id, spin) == 0; } ~Fn() { if (ok) xc_func_end(&f); } Fn(const Fn &) = delete; };
static std::string lower(std::string s) { for (char &ch : s) ch = tolower(ch); return s; }
// what the functional's own derivatives depend on, by evaluating it
struct Dep { bool ok = false, sigma = false, lapl = false, tau = false; };
static Dep probe(int id, vf::Rng &g) {
  Dep d; Fn F(id, XC_POLARIZED); if (!F.ok) return d; auto fl = F.f.info->flags; if (!(fl & XC_FLAGS_HAVE_VXC) || (fl & XC_FLAGS_1D) || (fl & XC_FLAGS_2D)) return d; int fam = F.f.info->family; d.ok = true;
  for (int k = 0; k < 12; k++) { double r[2] = {g.loguniform(0.02, 2), g.loguniform(0.02, 2)}, s[3], l[2], t[2], vr[2] = {0}, vs[3] = {0}, vl[2] = {0}, vt[2] = {0}; double ga = g.uniform(0.2, 2) * std::pow(r[0], 4. / 3), gb = g.uniform(0.2, 2) * std::pow(r[1], 4. / 3); s[0] = ga * ga; s[2] = gb * gb; s[1] = ga * gb * g.uniform(-0.9, 0.9); for (int i = 0; i < 2; i++) { l[i] = g.uniform(-3, 3) * std::pow(r[i], 5. / 3); t[i] = s[2 * i] / (8 * r[i]) * g.uniform(1.1, 3); }
    if (fam == XC_FAMILY_LDA || fam == XC_FAMILY_HYB_LDA) xc_lda_vxc(&F.f, 1, r, vr); else if (fam == XC_FAMILY_GGA || fam == XC_FAMILY_HYB_GGA) xc_gga_vxc(&F.f, 1, r, s, vr, vs); else if (fam == XC_FAMILY_MGGA || fam == XC_FAMILY_HYB_MGGA) xc_mgga_vxc(&F.f, 1, r, s, l, t, vr, vs, vl, vt); else { d.ok = false; return d; }
    for (double x : vs) d.sigma |= x != 0; for (double x : vl) d.lapl |= x != 0; for (double x : vt) d.tau |= x != 0;
    // the potential itself may depend on an ingredient without an energy derivative
    if (fam == XC_FAMILY_MGGA || fam == XC_FAMILY_HYB_MGGA) { double v2[2], w[3], x[2], y[2], l2[2] = {l[0] * 1.1 + .1, l[1]}, t2[2] = {t[0] * 1.2, t[1] * 1.2}; xc_mgga_vxc(&F.f, 1, r, s, l2, t, v2, w, x, y); d.lapl |= v2[0] != vr[0] || v2[1] != vr[1]; xc_mgga_vxc(&F.f, 1, r, s, l, t2, v2, w, x, y); d.tau |= v2[0] != vr[0] || v2[1] != vr[1]; } }
  return d;
}
static void judge(vf::Ctx &c, int id) {
  Fn F(id); if (!F.ok) { c.m.event("library_refuses"); return; } auto *in = F.f.info; int fam = in->family, k = in->kind; char *kw = xc_functional_get_name(id); std::string name = kw; free(kw); auto &g = c.rng;
  c.m.require("kind", is_exchange(id) == (k == XC_EXCHANGE || k == XC_EXCHANGE_CORRELATION) && is_correlation(id) == (k == XC_CORRELATION) && is_exchange_correlation(id) == (k == XC_EXCHANGE_CORRELATION) && is_kinetic(id) == (k == XC_KINETIC), name);
  // the name says what it is
  auto has = [&](const char *s) { return name.find(s) != std::string::npos; }; if (has("_xc_")) c.m.require("named_kind", is_exchange_correlation(id), name); else if (has("_x_") || name == "lda_x") c.m.require("named_kind", is_exchange(id) && !is_exchange_correlation(id), name); else if (has("_c_")) c.m.require("named_kind", is_correlation(id), name); else if (has("_k_")) c.m.require("named_kind", is_kinetic(id), name);
  c.m.require("keyword", get_keyword(id) == name, name); c.m.require("keyword_inverse", find_func(name) == id, name); c.m.require("keyword_number", find_func(std::to_string(id)) == id); c.m.require("keyword_case", find_func(recase(g, name)) == id, name);
  bool lda = fam == XC_FAMILY_LDA || fam == XC_FAMILY_HYB_LDA, gga = fam == XC_FAMILY_GGA || fam == XC_FAMILY_HYB_GGA, mgga = fam == XC_FAMILY_MGGA || fam == XC_FAMILY_HYB_MGGA, hyb = fam == XC_FAMILY_HYB_LDA || fam == XC_FAMILY_HYB_GGA || fam == XC_FAMILY_HYB_MGGA;
  bool a = true, b = true, l = true; std::string t = vf::thrown([&] { is_gga_mgga(id, a, b, l); }); if (lda || gga || mgga) { bool nt = NEEDS_TAU(in), nl = in->flags & XC_FLAGS_NEEDS_LAPLACIAN; if (!mgga) nt = nl = false; c.m.require("ingredients", t.empty() && a == gga && b == nt && l == nl, name); c.m.require("ingredients_single", gradient_needed(id) == (gga || mgga) && tau_needed(id) == nt && laplacian_needed(id) == nl, name);
    Dep d = probe(id, g); if (d.ok) { c.m.event("evaluated"); c.m.require("gradient_used_is_needed", !d.sigma || gradient_needed(id), name); c.m.require("tau_used_is_needed", !d.tau || tau_needed(id), name); c.m.require("laplacian_used_is_needed", !d.lapl || laplacian_needed(id), name); if (d.sigma) c.m.event("uses_gradient"); if (d.tau) c.m.event("uses_tau"); if (d.lapl) c.m.event("uses_laplacian"); } } else c.m.require("unsupported_family_refused", !t.empty(), name);
  bool cam = in->flags & (XC_FLAGS_HYB_CAM | XC_FLAGS_HYB_LC), yuk = in->flags & (XC_FLAGS_HYB_CAMY | XC_FLAGS_HYB_LCY); double om = 7, al = 7, be = 7, lo = 0, la = 0, lb = 0; range_separation(id, om, al, be, g.coin()); if (hyb) xc_hyb_cam_coef(&F.f, &lo, &la, &lb); bool e, y; is_range_separated(id, e, y, g.coin());
  c.m.require("range_kind", e == cam && y == yuk && is_range_separated(id, g.coin()) == (cam || yuk), name); c.m.require("range_parameters", (cam || yuk) ? om == lo && al == la && be == lb : om == 0 && al == la && be == 0, name + vf::fmt(" %g %g %g", om, al, be)); if (!hyb) c.m.require("no_exact_exchange", exact_exchange(id) == 0 && om == 0 && al == 0 && be == 0, name); else c.m.require("exact_exchange", exact_exchange(id) == (double)F.f.cam_alpha, name); c.m.require("supported", is_supported(id));
  double vb = 7, vc = 7, wb = 0, wc = 0; bool vv = needs_VV10(id, vb, vc); bool wv = in->flags & XC_FLAGS_VV10; if (wv) xc_nlc_coef(&F.f, &wb, &wc); c.m.require("nonlocal", vv == wv && vb == wb && vc == wc, name); c.m.require("energy_density", has_exc(id) == (bool)(in->flags & XC_FLAGS_HAVE_EXC), name);
  int x = 7, cc = 7; t = vf::thrown([&] { parse_xc_func(x, cc, g.coin() ? name : std::to_string(id)); }); c.m.require("single_name", k == XC_KINETIC ? !t.empty() : t.empty() && x == id && cc == 0, name + t);
}
VF_SECTION("functionals") {
  auto &g = c.rng; auto all = ids(); std::sort(all.begin(), all.end()); c.m.begin("library"); c.m.require("library_has_functionals", all.size() > 300); for (int r = 0; r < c.n(1, 4); r++) for (int id : all) { c.m.begin(vf::fmt("functional %d round %d", id, r)); judge(c, id); }
  std::set<int> known(all.begin(), all.end()); for (int id = 1; id <= 1500; id++) if (!known.count(id)) { c.m.begin(vf::fmt("absent functional %d", id)); double d; bool b; auto re = [&](const char *w, auto f) { c.m.require("absent_refused", !vf::thrown(f).empty(), vf::fmt("%s %d", w, id)); };
    re("exchange", [&] { is_exchange(id); }); re("correlation", [&] { is_correlation(id); }); re("xc", [&] { is_exchange_correlation(id); }); re("kinetic", [&] { is_kinetic(id); }); re("family", [&] { is_gga_mgga(id, b, b, b); }); re("exx", [&] { exact_exchange(id); }); re("rs", [&] { range_separation(id, d, d, d); }); re("isrs", [&] { is_range_separated(id); }); re("vv10", [&] { needs_VV10(id, d, d); }); re("grad", [&] { gradient_needed(id); }); re("tau", [&] { tau_needed(id); }); re("lapl", [&] { laplacian_needed(id); }); re("exc", [&] { has_exc(id); }); re("keyword", [&] { get_keyword(id); }); re("supported", [&] { is_supported(id); }); re("parse", [&] { int x, y; parse_xc_func(x, y, std::to_string(id)); }); re("parse2", [&] { int x, y; parse_xc_func(x, y, "lda_x-" + std::to_string(id)); }); re("info", [&] { print_info(id); }); }
  for (int id : {0, -1}) { c.m.begin(vf::fmt("internal functional %d", id)); double o, a, b; bool x, y, z; range_separation(id, o, a, b); c.m.require("internal_range", o == 0 && b == 0 && a == (id == -1 ? 1 : 0) && exact_exchange(id) == a && !is_range_separated(id)); is_gga_mgga(id, x, y, z); c.m.require("internal_class", !x && !y && !z && !gradient_needed(id) && !tau_needed(id) && !laplacian_needed(id) && is_exchange(id) == (id == -1) && !is_correlation(id) && !is_kinetic(id) && !is_exchange_correlation(id) && has_exc(id) && is_supported(id) && !needs_VV10(id, a, b)); c.m.require("internal_keyword", find_func(get_keyword(id)) == id); }
  // published constants
  struct Gd { const char *n; double exx; int rs; double om, al, be; }; static const Gd gd[] = {{"hyb_gga_xc_b3lyp", .2, 0, 0, .2, 0}, {"hyb_gga_xc_pbeh", .25, 0, 0, .25, 0}, {"hyb_mgga_x_m06_2x", .54, 0, 0, .54, 0}, {"hyb_gga_xc_hse06", 0, 1, .11, 0, .25}, {"hyb_gga_xc_cam_b3lyp", .65, 1, .33, .65, -.46}, {"hyb_gga_xc_lrc_wpbeh", 1, 1, .2, 1, -.8}, {"hyb_gga_xc_wb97x", 1, 1, .3, 1, -(1 - .157706)}, {"hyb_gga_xc_camy_b3lyp", .65, 2, .34, .65, -.46}, {"gga_x_pbe", 0, 0, 0, 0, 0}, {"mgga_x_scan", 0, 0, 0, 0, 0}, {"lda_x", 0, 0, 0, 0, 0}};
  for (auto &q : gd) { c.m.begin(std::string("published ") + q.n); int id = find_func(q.n); double o, a, b; bool e, y; range_separation(id, o, a, b); is_range_separated(id, e, y); c.m.close("published_exact_exchange", exact_exchange(id), q.exx, 1e-6); c.m.close("published_omega", o, q.om, 1e-6); c.m.close("published_alpha", a, q.al, 1e-6); c.m.close("published_beta", b, q.be, 2e-6); c.m.require("published_kind", e == (q.rs == 1) && y == (q.rs == 2), q.n); }
  { c.m.begin("published VV10"); double b, C; c.m.require("vv10_wb97xv", needs_VV10(find_func("hyb_gga_xc_wb97x_v"), b, C) && std::abs(b - 6) < 1e-9 && std::abs(C - .01) < 1e-9); c.m.require("vv10_vv10", needs_VV10(find_func("gga_xc_vv10"), b, C) && std::abs(b - 5.9) < 1e-9 && std::abs(C - .0093) < 1e-9); }
}
VF_SECTION("requests") {
  auto &g = c.rng; auto all = ids(); std::vector<int> use; for (int id : all) { Fn F(id); if (F.ok) use.push_back(id); }
  // words meaning one functional
  auto word = [&](int id) -> std::string { if (id == 0) { std::string s = "none"; return recase(g, s); } if (id == -1) return recase(g, g.coin() ? "HF" : "hyb_x_hf"); if (g.coin(0.3)) return std::to_string(id); char *k = xc_functional_get_name(id); std::string s = k; free(k); return g.coin() ? s : recase(g, s); };
  auto draw = [&] { return g.coin(0.1) ? 0 : g.coin(0.1) ? -1 : g.pick(use); };
  auto kin = [&](int id) { if (id <= 0) return false; Fn F(id); return F.f.info->kind == XC_KINETIC; };
  for (int it = 0; it < c.n(3000, 40000); it++) { int x = draw(), k = draw(), gx = 99, gk = 99; bool one = g.coin(0.2); std::string s = one ? word(x) : word(x) + "-" + word(k); c.m.begin("request " + s); std::string t = vf::thrown([&] { parse_xc_func(gx, gk, s); }); bool bad = kin(x) || (!one && kin(k)); c.m.require(bad ? "kinetic_refused" : "request_parsed", bad ? !t.empty() : t.empty() && gx == x && gk == (one ? 0 : k), s + vf::fmt(" -> %d %d ", gx, gk) + t);
    // damaged requests
    std::string d = s; int kind = g.integer(0, 5); if (kind == 0) d = s + "q"; else if (kind == 1) d = "q" + s; else if (kind == 2) d = "-" + s; else if (kind == 3) d = one ? s + "-" : s + "-" + word(x); else if (kind == 4) d = s + "_"; else d = " " + s;
    c.m.require("damaged_request_refused", !vf::thrown([&] { parse_xc_func(gx, gk, d); }).empty(), d); }
  for (std::string s : {"", "-", "--", "lda_x-", "-lda_c_vwn", "pbe", "1x", "1.5", "1 7", "lda_x lda_c_vwn", "lda_x--lda_c_vwn", "99999999999", "4294967297", "18446744073709551617", "lda_x-lda_c_vwn-lda_c_pw", "0x1"}) { c.m.begin("bad request '" + s + "'"); int a, b; c.m.require("bad_request_refused", !vf::thrown([&] { parse_xc_func(a, b, s); }).empty(), s); }
  // the answers do not depend on what was asked before or on who else is asking
  struct Ans { bool k[8]; double v[6]; bool operator==(const Ans &o) const { return !memcmp(k, o.k, sizeof k) && !memcmp(v, o.v, sizeof v); } }; auto ask = [](int id) { Ans a; a.k[0] = is_exchange(id); a.k[1] = is_correlation(id); a.k[2] = is_range_separated(id, false); a.k[3] = gradient_needed(id); a.k[4] = tau_needed(id); a.k[5] = laplacian_needed(id); a.k[6] = has_exc(id); a.k[7] = needs_VV10(id, a.v[0], a.v[1]); range_separation(id, a.v[2], a.v[3], a.v[4], false); a.v[5] = exact_exchange(id); return a; };
  std::vector<Ans> base; for (int id : use) base.push_back(ask(id)); std::vector<std::thread> th; std::atomic<int> wrong{0}; std::atomic<long> asked{0}; int rounds = c.n(300, 5000); for (int w = 0; w < 4; w++) { uint64_t s = g.next(); th.emplace_back([&, s] { vf::Rng r(s); for (int i = 0; i < rounds; i++) { int j = r.integer(0, use.size() - 1); if (!(ask(use[j]) == base[j])) wrong++; asked++; } }); } for (auto &t : th) t.join(); c.m.begin("four threads asking"); c.m.require("answers_stable", wrong == 0, vf::fmt("%d of %ld", (int)wrong, (long)asked)); c.m.event("concurrent_questions", asked);
}
VF_MAIN
