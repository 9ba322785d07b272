// P22: tabulated atoms (on a stand-in table): accessors, density, charge, screening, potentials, shared use
#include "refsad.h"
#include "util.h"
#include <general/atomdb.h>
#include <general/model_potential.h>
#include <diatomic/twodquadrature.h>
#include <atomic>
#include <thread>
extern "C" {
#include <xc.h>
}
using namespace helfem; using ref::q; typedef long double ld;
static ref::FE space() {
  ref::FE R; auto poly = make_poly<double>(atomdb::data::primbas, atomdb::data::nnodes); R.p = ref_prim<double>(*poly, atomdb::data::primbas, atomdb::data::nnodes);
  for (int i = 0; i <= atomdb::data::nelem; i++) R.b.push_back(atomdb::data::bval[i]); R.setup(true, false, true, false); return R;
}
// the functions of an element as polynomials of the reference coordinate
typedef std::vector<q> pol;
static q pval(const pol &c, q x, int n) { q s = 0; for (int k = (int)c.size() - 1; k >= n; k--) { q f = 1; for (int i = 0; i < n; i++) f *= k - i; s = s * x + c[k] * f; } return s; }
// the raw table, read independently of the accessors
struct Rec {
  const ref::FE &R; int Z; std::vector<q> occ; q N = 0; std::vector<q> ein, eout; int no; std::vector<std::vector<pol>> fun, orb; std::vector<std::vector<ld>> aP;  // per element
  // for the element at the nucleus the polynomials are those of B/(1+x)
  static pol deflate(const pol &c) { pol d(c.size() - 1); q s = 0; for (int k = (int)c.size() - 1; k > 0; k--) { s = c[k] - s; d[k - 1] = s; } return d; }
  Rec(const ref::FE &r, int z) : R(r), Z(z) {
    std::vector<const double *> C; for (int l = 0; l <= atomdb::data::lmax; l++) for (int i = 0; i < atomdb::data::norb[Z - 1][l]; i++) { int o = atomdb::data::offset[Z - 1][l] + i; occ.push_back(atomdb::data::occupations[o]); C.push_back(atomdb::data::coefficients + (size_t)o * R.nbf); } no = (int)C.size();
    for (int e = 0; e < R.nel(); e++) { std::vector<pol> f, g; for (int j : R.loc[e]) { auto t = R.p.eval(j, 0, R.p.nprim(), R.half(e)); pol c(t.begin(), t.begin() + R.p.nprim()); if (e == 0) c = deflate(c); f.push_back(c); } for (int o = 0; o < no; o++) { pol c(f[0].size(), 0); for (size_t i = 0; i < f.size(); i++) for (size_t k = 0; k < c.size(); k++) c[k] += (q)C[o][R.glo[e][i]] * f[i][k]; g.push_back(c); } std::vector<ld> P(f.size() * f.size(), 0); for (size_t i = 0; i < f.size(); i++) for (size_t j = 0; j < f.size(); j++) for (int o = 0; o < no; o++) P[i * f.size() + j] += (ld)occ[o] * fabs(C[o][R.glo[e][i]] * C[o][R.glo[e][j]]); fun.push_back(f); orb.push_back(g); aP.push_back(P); }
    for (int e = 0; e < R.nel(); e++) { ein.push_back(part(e, R.b[e], R.b[e + 1], false)); eout.push_back(part(e, R.b[e], R.b[e + 1], true)); N += ein.back(); } }
  // B/r and two derivatives
  void radial(int e, q x, const pol &c, q *u) const { q h = R.half(e); if (e == 0) { for (int n = 0; n < 3; n++) u[n] = pval(c, x, n) / powq(h, n + 1); return; } q r = R.mid(e) + h * x, B = pval(c, x, 0), B1 = pval(c, x, 1) / h, B2 = pval(c, x, 2) / (h * h); u[0] = B / r; u[1] = (B1 - u[0]) / r; u[2] = (B2 - 2 * u[1]) / r; }
  void rho(int e, q x, q *d, q *mag) const {
    const q p = 4 * M_PIq; for (int m = 0; m < 3; m++) d[m] = mag[m] = 0; q u[3]; for (int o = 0; o < no; o++) { radial(e, x, orb[e][o], u); d[0] += occ[o] * u[0] * u[0]; d[1] += 2 * occ[o] * u[0] * u[1]; d[2] += 2 * occ[o] * (u[1] * u[1] + u[0] * u[2]); }
    // what rounding of the contracted matrix can contribute
    int n = (int)fun[e].size(); std::vector<ld> v(3 * n); for (int i = 0; i < n; i++) { radial(e, x, fun[e][i], u); for (int m = 0; m < 3; m++) v[3 * i + m] = fabsl((ld)u[m]); } // near a node of the mesh the other functions vanish, their rounding does not
    for (int m = 0; m < 3; m++) { ld top = 0; for (int i = 0; i < n; i++) top = std::max(top, v[3 * i + m]); for (int i = 0; i < n; i++) v[3 * i + m] = std::max(v[3 * i + m], 0.1L * top); }
    ld a[3] = {0, 0, 0}; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { ld P = aP[e][i * n + j]; a[0] += P * v[3 * i] * v[3 * j]; a[1] += 2 * P * v[3 * i] * v[3 * j + 1]; a[2] += 2 * P * (v[3 * i + 1] * v[3 * j + 1] + v[3 * i] * v[3 * j + 2]); } for (int m = 0; m < 3; m++) { d[m] /= p; mag[m] = a[m] / p; } }
  q part(int e, q lo, q hi, bool over) const { if (!(hi > lo)) return 0; std::vector<q> pts{lo}; if (over && e > 0) for (q t = lo * 2; t < hi; t *= 2) pts.push_back(t); pts.push_back(hi); const auto &g = ref::gauss(R.p.nprim() + 16); q s = 0; for (size_t k = 0; k + 1 < pts.size(); k++) for (size_t i = 0; i < g.first.size(); i++) { q h = (pts[k + 1] - pts[k]) / 2, r = (pts[k] + pts[k + 1]) / 2 + h * g.first[i], x = R.xof(e, r), f = 0; for (int o = 0; o < no; o++) { q v = pval(orb[e][o], x, 0); f += occ[o] * v * v; } if (e == 0) { q w = r / R.half(0); f *= over ? w / R.half(0) : w * w; } else if (over) f /= r; s += h * g.second[i] * f; } return s; }
  q below(q r) const { q s = 0; for (int e = 0; e < R.nel(); e++) s += r >= R.b[e + 1] ? ein[e] : part(e, R.b[e], r, false); return s; }
  q above(q r) const { q s = 0; for (int e = 0; e < R.nel(); e++) s += r <= R.b[e] ? eout[e] : part(e, r, R.b[e + 1], true); return s; }
};
static const ld eps = std::numeric_limits<double>::epsilon();
static double radius(vf::Rng &g, const ref::FE &R) { double end = (double)R.b.back(); if (g.coin(0.12)) return (double)R.b[g.integer(1, R.nel())]; if (g.coin(0.1)) { double b = (double)R.b[g.integer(1, R.nel())]; return std::nextafter(b, g.coin() ? 0.0 : 1e9); } if (g.coin(0.1)) return g.loguniform(1e-300, 1e-8); if (g.coin(0.05)) return end * g.uniform(1, 3); return g.coin() ? g.loguniform(1e-8, end) : g.uniform(0, end); }
// more than one thread needs the shared basis and the rule for the first time
VF_SECTION("first_use") {
  auto &g = c.rng; ref::FE R = space(); std::vector<std::thread> th; std::vector<double> got(8), r(8); std::vector<int> Z(8); for (int i = 0; i < 8; i++) { Z[i] = g.integer(1, 118); r[i] = g.uniform(0.5, 5); } std::atomic<int> gate{0}; for (int i = 0; i < 8; i++) th.emplace_back([&, i] { gate++; while (gate < 8); atomdb::Atom a(Z[i]); got[i] = a.hartree_screening(r[i]) + a.xc_screening(r[i], XC_LDA_X, 0); }); for (auto &t : th) t.join();
  for (int i = 0; i < 8; i++) { c.m.begin(vf::fmt("first use Z=%d r=%.17g", Z[i], r[i])); atomdb::Atom a(Z[i]); c.m.require("first_use", got[i] == a.hartree_screening(r[i]) + a.xc_screening(r[i], XC_LDA_X, 0)); }
}
VF_SECTION("records") {
  auto &g = c.rng; ref::FE R = space(); c.m.begin("table"); c.m.require("extent", atomdb::max_Z() == atomdb::data::max_Z && atomdb::lmax() == atomdb::data::lmax && atomdb::Nbf() == R.nbf); Vector b = atomdb::element_boundaries(); bool ok = b.size() == (int)R.b.size(); for (int i = 0; ok && i < b.size(); i++) ok = b(i) == (double)R.b[i]; c.m.require("boundaries", ok);
  const Matrix S = atomdb::Atom(1).basis().overlap();
  for (int Z = 1; Z <= 118; Z++) for (int l = 0; l <= atomdb::lmax(); l++) { c.m.begin(vf::fmt("record Z=%d l=%d", Z, l)); int n = atomdb::norb(Z, l), off = atomdb::data::offset[Z - 1][l]; Vector o = atomdb::occupations(Z, l); Matrix C = atomdb::coefficients(Z, l); if (!c.m.require("record_shape", n == atomdb::data::norb[Z - 1][l] && o.size() == n && C.cols() == n && C.rows() == R.nbf)) continue; bool same = true; for (int i = 0; i < n; i++) { same &= o(i) == atomdb::data::occupations[off + i] && o(i) > 0 && o(i) <= 2 * (2 * l + 1); for (int k = 0; k < R.nbf; k++) same &= C(k, i) == atomdb::data::coefficients[(size_t)(off + i) * R.nbf + k]; } c.m.require("record_values", same); if (n) c.m.small("orthonormal", (C.transpose() * S * C - Matrix::Identity(n, n)).cwiseAbs().maxCoeff(), 400 * eps); }
  for (int it = 0; it < c.n(60, 500); it++) { int Z = g.pick({0, -1, -100, 119, 120, 1 << 20, g.integer(119, 100000), -g.integer(0, 100000)}), l = g.integer(0, 3); c.m.begin(vf::fmt("outside Z=%d l=%d", Z, l)); c.m.require("outside_refused", !vf::thrown([&] { atomdb::norb(Z, l); }).empty() && !vf::thrown([&] { atomdb::occupations(Z, l); }).empty() && !vf::thrown([&] { atomdb::coefficients(Z, l); }).empty() && !vf::thrown([&] { atomdb::Atom a(Z); }).empty()); if (Z) c.m.require("outside_potential_refused", !vf::thrown([&] { modelpotential::SAPFEAtom s(Z); }).empty()); int Zok = g.integer(1, 118), lb = g.pick({-1, 4, 5, 1000, -1000}); c.m.require("outside_l_refused", !vf::thrown([&] { atomdb::norb(Zok, lb); }).empty() && !vf::thrown([&] { atomdb::occupations(Zok, lb); }).empty() && !vf::thrown([&] { atomdb::coefficients(Zok, lb); }).empty()); }
}
VF_SECTION("atoms") {
  auto &g = c.rng; ref::FE R = space(); int per = c.n(1, 8);
  for (int Z = 1; Z <= 118; Z++) for (int rep = 0; rep < per; rep++) {
    Rec T(R, Z); atomdb::Atom at(Z); double end = (double)R.b.back(); c.m.begin(vf::fmt("atom Z=%d %d", Z, rep)); q so = 0; for (q o : T.occ) so += o; ld sc = (ld)so; c.m.require("charge", at.charge() == Z); c.m.close("electrons", at.nelectrons(), (ld)so, 300 * eps * sc); c.m.close("electrons_integrated", at.nelectrons(), (ld)T.N, 60 * eps * sc);
    c.m.require("boundaries", at.element_boundaries() == atomdb::element_boundaries());
    std::vector<double> rs; for (int i = 0; i < 40; i++) rs.push_back(radius(g, R)); std::sort(rs.begin(), rs.end()); double last = 0; ld qmag = sc;
    for (double r : rs) {
      double Q = at.enclosed_charge(r), H = at.hartree_screening(r); c.m.close("enclosed_charge", Q, (ld)T.below(std::min((q)r, R.b.back())), 60 * eps * qmag, vf::fmt("r=%.17g", r)); c.m.require("charge_monotone", Q >= last - 40 * (double)eps * (double)sc, vf::fmt("r=%g %g<%g", r, Q, last)); last = std::max(last, Q);
      c.m.close("hartree", H, (ld)(T.below(std::min((q)r, R.b.back())) + (r < end ? (q)r * T.above(r) : 0)), 100 * eps * qmag, vf::fmt("r=%.17g", r)); c.m.require("hartree_bounds", H >= Q - 1e-13 * sc && H <= (double)sc * (1 + 1e-12), vf::fmt("r=%g %g %g", r, Q, H));
      if (r >= end) { c.m.require("outside_charge", Q == at.nelectrons() && H == at.nelectrons()); if (r > end) c.m.require("outside_density", at.density(r) == 0 && at.radial_density(r) == 0 && at.density_gradient(r) == 0 && at.density_laplacian(r) == 0 && at.xc_screening(r, XC_LDA_X, 0) == 0); }
      if (r > end) continue; q d[3], m[3]; bool best = false; ld D = at.density(r), G = at.density_gradient(r), L = at.density_laplacian(r), W = at.radial_density(r);
      // at an element boundary either one-sided derivative will do
      std::vector<int> cand; for (int e = 0; e < R.nel(); e++) if (r >= (double)R.b[e] && r <= (double)R.b[e + 1]) cand.push_back(e); ld eg = 1e300L, el = 1e300L; for (int e : cand) { T.rho(e, R.xof(e, r), d, m); if (!best) { ld dr = (ld)R.half(e) * 4 * eps + r * eps, sd = dr * fabsl((ld)d[1]) + dr * dr * fabsl((ld)d[2]) + 1e-300L; c.m.close("density", D, (ld)d[0], 60 * eps * (ld)m[0] + sd, vf::fmt("r=%.17g", r)); c.m.close("radial_density", W, (ld)(4 * M_PIq * (q)r * (q)r * d[0]), (ld)(4 * M_PIq * (q)r * (q)r) * (60 * eps * (ld)m[0] + sd) + 1e-300L); best = true; }
        // sensitivity to the rounded coordinate
        q x = R.xof(e, r), h = 1e-8Q, dp[3], mp[3]; T.rho(e, x > 0 ? x - h : x + h, dp, mp); ld sg = (ld)(fabsq(dp[1] - d[1]) / h) * 4 * eps, sl = (ld)((fabsq(dp[2] - d[2]) + 2 / (q)r * fabsq(dp[1] - d[1])) / h) * 4 * eps; eg = std::min(eg, fabsl(G - (ld)d[1]) / (200 * eps * (ld)m[1] + sg)); el = std::min(el, fabsl(L - (ld)(d[2] + 2 * d[1] / (q)r)) / (400 * eps * (ld)(m[2] + 2 * m[1] / (q)r) + sl)); }
      if (r > 1e-12) { c.m.small("density_gradient", eg, 1, vf::fmt("r=%.17g", r)); c.m.small("density_laplacian", el, 1, vf::fmt("r=%.17g", r)); }
    }
    // at and towards the nucleus
    q d[3], m[3]; T.rho(0, -1, d, m); for (double r : {0.0, 1e-300, 1e-160, 1e-12}) { c.m.close("density_at_nucleus", at.density(r), (ld)d[0], 1e-9L * (ld)m[0], vf::fmt("r=%g", r)); c.m.close("gradient_at_nucleus", at.density_gradient(r), (ld)d[1], 1e-8L * (ld)m[1], vf::fmt("r=%g", r)); c.m.require("screening_at_nucleus", std::abs(at.hartree_screening(r)) < 1e-8 * (double)m[0] && std::abs(at.enclosed_charge(r)) < 1e-8 * (double)m[0] && at.radial_density(r) >= 0); c.m.close("charge_at_nucleus", at.effective_charge(r, XC_LDA_X, 0), Z, 1e-8 * Z * Z); }
    for (double r : {-1.0, -1e-300}) c.m.require("negative_radius", at.density(r) == 0 && at.radial_density(r) == 0 && at.enclosed_charge(r) == 0 && at.hartree_screening(r) == 0 && at.xc_screening(r, 1, 7) == 0);
    c.m.require("far_charge", at.effective_charge(2 * end, XC_LDA_X, XC_LDA_C_PW) == Z - at.nelectrons());
    // partial integrals add up and an empty or reversed range holds nothing
    int e = g.integer(0, R.nel() - 1); double x[4] = {-1, g.uniform(-1, 1), 0, 1}; x[2] = g.uniform(x[1], 1); for (bool over : {false, true}) { double s = 0, w = at.partial_integral(e, -1, 1, over); for (int i = 0; i < 3; i++) { double p = at.partial_integral(e, x[i], x[i + 1], over); c.m.close("partial", p, (ld)T.part(e, R.mid(e) + R.half(e) * (q)x[i], R.mid(e) + R.half(e) * (q)x[i + 1], over), 100 * eps * (ld)(over ? T.eout[e] : T.ein[e]) + 1e-3L * eps * sc); s += p; } c.m.close("partial_additive", s, w, 30 * eps * std::fabs(w) + 1e-3L * eps * sc); c.m.require("partial_empty", at.partial_integral(e, x[1], x[1], over) == 0 && at.partial_integral(e, x[2], x[1], over) == 0); }
  }
}
// exchange-correlation screening
static void first(int id, double n, double d, double &v, double &F) { xc_func_type f; if (xc_func_init(&f, id, XC_POLARIZED)) throw std::logic_error("init"); double r[2] = {n / 2, n / 2}, s[3] = {d * d / 4, d * d / 4, d * d / 4}, vr[2] = {0}, vs[3] = {0}; if (f.info->family == XC_FAMILY_LDA || f.info->family == XC_FAMILY_HYB_LDA) xc_lda_vxc(&f, 1, r, vr); else xc_gga_vxc(&f, 1, r, s, vr, vs); xc_func_end(&f); v += vr[0]; F += 2 * vs[0] * d / 2 + vs[1] * d / 2; }
VF_SECTION("screening") {
  auto &g = c.rng; ref::FE R = space(); for (int it = 0; it < c.n(160, 2500); it++) {
    int Z = g.integer(1, 118); Rec T(R, Z); atomdb::Atom at(Z); atomdb::Atom copy(at); int xf = g.pick({0, 1, 101, 106, 402, 101, 116}), cf = g.pick({0, 7, 12, 130, 131}); if (xf == 402) cf = 0; if (!xf && !cf) xf = 101; c.m.begin(vf::fmt("screening Z=%d x=%d c=%d %d", Z, xf, cf, it)); c.m.event(vf::fmt("functional_%d_%d", xf, cf)); c.m.require("none", at.xc_screening(1.0, 0, 0) == 0 && at.xc_screening(1.0, -1, 0) == 0);
    auto both = [&](int e, q r, double &v, double &F) { q d[3], m[3]; T.rho(e, R.xof(e, r), d, m); v = F = 0; for (int id : {xf, cf}) if (id > 0) first(id, (double)d[0], (double)d[1], v, F); };
    for (int t = 0; t < 12; t++) { int e = g.integer(0, R.nel() - 1); q h = R.half(e) * 1e-3Q, r = R.mid(e) + R.half(e) * (q)g.uniform(-0.97, 0.97), d[3], m[3]; double rd = (double)r; r = rd; T.rho(e, R.xof(e, r), d, m); double n = (double)d[0]; double got = at.xc_screening(rd, xf, cf);
      double o = at.effective_charge(rd, xf, cf); c.m.close("effective_charge", o, (ld)Z - at.hartree_screening(rd) - got, 8 * eps * Z); c.m.require("history", at.xc_screening(rd, 1, 0) == copy.xc_screening(rd, 1, 0) && at.xc_screening(rd, xf, cf) == got, "functional changed in between");
      if (xf == 1 && cf == 0 && n > 1e-12) c.m.close("slater", got, -rd * std::cbrt(3 * n / M_PI), 1e-10 * rd * std::cbrt(3 * n / M_PI) + 3 * rd * std::pow(n, -2. / 3) * 60 * (double)eps * (double)m[0]);
      if (n < 1e-5) continue; double V[5], F[5]; for (int k = 0; k < 5; k++) both(e, r + (k - 2) * h, V[k], F[k]); double dF = (F[0] - 8 * F[1] + 8 * F[3] - F[4]) / (12 * (double)h), want = rd * (V[2] - dF - 2 * F[2] / rd), mag = rd * (std::fabs(V[2]) + std::fabs(dF)) + 2 * std::fabs(F[2]); c.m.close("xc_potential", got, want, 2e-6 * mag + 2e-7, vf::fmt("r=%g n=%g", rd, n)); }
    // the same density on the calculation's own grid
    if (it % 8 == 0) { sadatom::basis::TwoDBasis tdb(Z, modelpotential::POINT_NUCLEUS, 0.0, make_poly<double>(atomdb::data::primbas, atomdb::data::nnodes), false, atomdb::data::nquad, atomdb::element_boundaries(), 3); Matrix P = Matrix::Zero(R.nbf, R.nbf); for (int l = 0; l < 4; l++) { Matrix C = atomdb::coefficients(Z, l); if (C.cols()) P += C * atomdb::occupations(Z, l).asDiagonal() * C.transpose(); } Vector v = tdb.xc_screening(P, xf, cf), r = tdb.radii(); for (int k = 1; k < r.size(); k += 7) { double n = at.density(r(k)); if (n < 1e-9) continue; c.m.close("grid_screening", at.xc_screening(r(k), xf, cf), v(k), 1e-10 * (1 + std::fabs(v(k))) * (n < 1e-5 ? 100 : 1), vf::fmt("r=%g n=%g", r(k), n)); } }
    for (int id : {202, 231, 263}) c.m.require("mgga_refused", !vf::thrown([&] { at.xc_screening(1.0, id, 0); }).empty() && !vf::thrown([&] { at.xc_screening(1.0, 1, id); }).empty() && at.xc_screening(1.0, 1, 0) == copy.xc_screening(1.0, 1, 0)); c.m.require("unknown_refused", !vf::thrown([&] { at.xc_screening(1.0, 99999, 0); }).empty());
    modelpotential::SAPFEAtom s(Z, xf, cf); for (int k = 0; k < 5; k++) { double r = g.loguniform(1e-6, 60); c.m.close("model_potential", s.V(r) * r, -at.effective_charge(r, xf, cf), 1e-13 * Z); } double a = g.uniform(0, 20), b = g.uniform(a, 50); std::vector<double> bp = s.breakpoints(a, b), w; for (q t : R.b) if (t > a && t < b) w.push_back((double)t); c.m.require("breakpoints", bp == w);
  }
}
// what an atom answers depends on nothing but the atom and the radius: not on other atoms, not on the one that lived at its address before
VF_SECTION("history") {
  auto &g = c.rng; alignas(atomdb::Atom) static char slot[3][sizeof(atomdb::Atom)]; atomdb::Atom *at[3] = {0, 0, 0}; int Z[3] = {0, 0, 0};
  std::map<int, std::unique_ptr<Rec>> T; ref::FE R = space(); double pool[2]; auto newpool = [&] { for (double &r : pool) r = radius(g, R); }; newpool();
  for (int it = 0; it < c.n(1500, 12000); it++) {
    int k = g.coin(0.6) ? 0 : g.integer(1, 2); if (it % 60 == 0) newpool(); if (!at[k] || g.coin(0.4)) { if (at[k]) at[k]->~Atom(); Z[k] = g.pick({1, 2, 8, 18, 26, 47, 79, 118}); if (g.coin(0.3) && at[(k + 1) % 3]) { at[k] = new (slot[k]) atomdb::Atom(*at[(k + 1) % 3]); Z[k] = Z[(k + 1) % 3]; } else at[k] = new (slot[k]) atomdb::Atom(Z[k]); c.m.event("atoms_replaced"); }
    auto &t = T[Z[k]]; if (!t) t.reset(new Rec(R, Z[k])); ld sc = 0; for (q o : t->occ) sc += (ld)o; double r = pool[g.coin(0.75) ? 0 : 1], end = (double)R.b.back(); c.m.begin(vf::fmt("history slot=%d Z=%d r=%.17g %d", k, Z[k], r, it)); q rr = std::min((q)r, R.b.back());
    switch (g.integer(0, 3)) {
    case 0: c.m.close("history.enclosed_charge", at[k]->enclosed_charge(r), (ld)t->below(rr), 60 * eps * sc); break;
    case 1: c.m.close("history.hartree", at[k]->hartree_screening(r), (ld)(t->below(rr) + (r < end ? (q)r * t->above(r) : 0)), 100 * eps * sc); break;
    case 2: if (r < end) { int e = 0; while (r > (double)R.b[e + 1]) e++; q d[3], m[3]; t->rho(e, R.xof(e, r), d, m); ld dr = (ld)R.half(e) * 4 * eps + r * eps; c.m.close("history.density", at[k]->density(r), (ld)d[0], 60 * eps * (ld)m[0] + dr * fabsl((ld)d[1]) + dr * dr * fabsl((ld)d[2]) + 1e-300L); } break;
    default: { int x = g.pick({1, 101, 106}), cc = g.pick({0, 7, 130}); double v = at[k]->effective_charge(r, x, cc); atomdb::Atom *fresh = new atomdb::Atom(Z[k]); fresh->effective_charge(r * 0.5 + 0.1, 1, 0); c.m.require("history.effective_charge", v == fresh->effective_charge(r, x, cc)); delete fresh; } }
  }
  for (auto *a : at) if (a) a->~Atom();
}
// one record used by several threads
VF_SECTION("shared") {
  auto &g = c.rng; for (int it = 0; it < c.n(12, 120); it++) { int Z = g.integer(1, 118), Z2 = g.integer(1, 118); bool same = g.coin(0.7); c.m.begin(vf::fmt("shared Z=%d %d", Z, it)); atomdb::Atom at(Z); atomdb::Atom ref1(Z); struct J { double r; int x, k; double want; }; std::vector<J> js; int fx[4] = {1, 101, 106, 1}, fc[4] = {0, 130, 0, 7}; for (int i = 0; i < 64; i++) { J j{g.loguniform(1e-3, 30), fx[i % 4], fc[i % 4], 0}; if (same) { j.x = 1; j.k = 7; } j.want = ref1.effective_charge(j.r, j.x, j.k); js.push_back(j); }
    std::atomic<int> gate{0}, bad{0}; std::vector<std::thread> th; for (int w = 0; w < 4; w++) th.emplace_back([&, w] { gate++; while (gate < 4); for (int k = 0; k < 64; k++) { auto &j = js[(k + 17 * w) % 64]; if (at.effective_charge(j.r, j.x, j.k) != j.want) bad++; } }); for (auto &t : th) t.join(); c.m.require("shared_record", bad == 0, vf::fmt("%d", (int)bad)); c.m.event("concurrent_evaluations", 256); (void)Z2; }
}
VF_MAIN
