// P20: requests with boundary-size and invalid values. Whatever is accepted is then used through every entry point;
// whatever is not must end in a standard exception. The verdict comes from the sanitizers and library assertions.
#include "vf.h"
#include <chebyshev.h>
#include <lobatto.h>
#include <GTO.h>
#include <STO.h>
#include <PolynomialBasis.h>
#include <RadialBasis.h>
#include <CoulombExchangeFE.h>
#include <grid.h>
#include <helfem.h>
#include <utils.h>
#include <atomic/basis.h>
#include <atomic/dftgrid.h>
#include <diatomic/basis.h>
#include <diatomic/dftgrid.h>
#include <diatomic/twodquadrature.h>
#include <sadatom/basis.h>
#include <general/angular.h>
#include <general/angular_index_helpers.h>
#include <general/checkpoint.h>
#include <general/dftfuncs.h>
#include <general/elements.h>
#include <general/gaunt.h>
#include <general/lcao.h>
#include <general/model_potential.h>
#include <general/scf_helpers.h>
#include <general/sap.h>
#include <general/gsz.h>
#include <general/spherical_harmonics.h>
#include <memory>
using namespace helfem;
namespace pb = helfem::polynomial_basis;
namespace {
struct Try {
  vf::Ctx &c; std::string base;
  // run one request; returns whether it was accepted
  bool operator()(const std::string &what, std::function<void()> f) {
    c.m.begin(base + " " + what); std::string s = vf::thrown(f); bool std_ = s.empty() || s.rfind("std:", 0) == 0;
    c.m.require("fuzz.standard_exception", std_, s); c.m.event(s.empty() ? "request accepted" : "request refused"); return s.empty();
  }
};
int odd_int(vf::Rng &g, int lo, int hi) { return g.coin(0.75) ? g.integer(lo, hi) : g.pick({-1, 0, 1, -7, 2}); }
double odd_real(vf::Rng &g, double lo, double hi) { return g.coin(0.85) ? g.uniform(lo, hi) : g.pick({0.0, -1.0, 1e-300, (double)NAN, (double)INFINITY, 1e-12}); }
Vector odd_bval(vf::Rng &g, double rmax, std::string &d) {
  int n = g.coin(0.85) ? g.integer(2, 4) : g.integer(0, 1); Vector b(n); for (int i = 0; i < n; i++) b(i) = rmax * i / std::max(1, n - 1);
  if (n > 1 && g.coin(0.15)) b(g.integer(1, n - 1)) = g.pick({0.0, rmax, -1.0, (double)NAN, (double)INFINITY}); if (n > 1 && g.coin(0.05)) std::swap(b(0), b(n - 1)); 
  d = "b=["; for (int i = 0; i < n; i++) d += vf::fmt("%g,", b(i)); d += "]"; return b;
}
std::shared_ptr<const pb::PolynomialBasis> odd_poly(vf::Rng &g, std::string &d, Try &t) {
  int id = g.coin(0.9) ? g.pick({3, 4, 5, 8, 9}) : g.integer(-2, 12), nn = g.coin(0.9) ? g.integer(2, id >= 8 ? 3 : 5) : g.pick({-1, 0, 1}); d = vf::fmt("id=%d nodes=%d ", id, nn);
  std::shared_ptr<const pb::PolynomialBasis> p; t(d, [&] { p.reset(pb::get_basis(id, nn)); }); return p;
}
template <class T> void use_radial(vf::Rng &g, Try &t, const atomic::basis::FEMRadialBasisT<T> &r, const std::string &d) {
  if (r.Nbf() == 0) return;
  t(d + "ops", [&] { r.overlap(); r.kinetic(); r.kinetic_l(); r.nuclear(); });
  size_t ne = r.Nel(), e = g.integer(0, (int)ne - 1); int L = g.integer(0, 3);
  t(d + "element ops", [&] { r.overlap(e); r.kinetic(e); r.kinetic_l(e); r.nuclear(e); r.radial_integral(g.integer(0, 3), e); if (e) r.radial_integral(-L - 1, e); });
  t(d + "bessel", [&] { r.bessel_il_integral(L, T(0.7), e); if (e) r.bessel_kl_integral(L, T(0.7), e); });
  t(d + "confinement", [&] { r.confinement_potential(e, odd_int(g, 1, 6), T(odd_real(g, 0.1, 5)), odd_int(g, 1, 4), T(odd_real(g, 0, 10)), T(odd_real(g, 0, 3))); });
  t(d + "offcenter", [&] { r.nuclear_offcenter(e, T(odd_real(g, 0.1, 8)), L); });
  t(d + "twoe", [&] { r.twoe_integral(L, e); r.yukawa_integral(L, T(0.4), e); r.twoe_integral_cholesky(L, e); r.spherical_potential(e); });
  if (ne * r.max_Nprim() < 12) t(d + "erfc", [&] { r.erfc_integral(L, T(0.3), e, g.integer(0, (int)ne - 1)); });
  t(d + "values", [&] { r.get_bf(e); r.get_df(e); r.get_lf(e); r.get_wrad(e); r.get_r(e); Vec<T> x(3); x << T(-1), T(0.3), T(1); r.get_bf(x, e); r.get_df(x, e); r.get_lf(x, e); });
  Mat<T> C = Mat<T>::Random(r.Nbf(), 2); Vec<T> b = r.get_bval();
  for (T x : {b(0), b(b.size() - 1), b(std::min<Eigen::Index>(1, b.size() - 1)), T((b(0) + b(1)) / 2), T(b(b.size() - 1) * 2), T(-1), T(0), T(NAN)}) t(d + vf::fmt("eval_orbs(%g)", (double)x), [&] { r.eval_orbs(C, x); });
  t(d + "nuclear values", [&] { Mat<T> P = C * C.transpose(); r.nuclear_density(P); r.nuclear_density_gradient(P); r.nuclear_orbital(C); });
  t(d + "assembly", [&] { Mat<T> P = C * C.transpose(); atomic::basis::assemble_J_FE_one_multipole(r, L, P); atomic::basis::assemble_K_FE_one_multipole(r, L, P); });
}
}  // namespace
VF_SECTION("radial") {
  auto &g = c.rng; Try t{c, ""};
  for (int it = 0; it < c.n(60, 800); it++) {
    t.base = vf::fmt("radial %d", it); std::string pd, bd; auto p = odd_poly(g, pd, t); if (!p) continue; Vector b = odd_bval(g, g.loguniform(0.5, 30), bd); bool f[4]; for (bool &v : f) v = g.coin(); f[0] = true; f[1] = false; int nq = g.coin(0.9) ? g.integer(3, 25) : g.pick({-1, 0, 1, 2}); pd += bd + vf::fmt(" %d%d%d%d nq=%d ", f[0], f[1], f[2], f[3], nq);
    pb::FiniteElementBasis fe; if (!t(pd + "finite elements", [&] { fe = pb::FiniteElementBasis(p, b, f[0], f[1], f[2], f[3]); })) continue;
    t(pd + "fe values", [&] { Vector x(3); x << -1, 0.2, 1; for (size_t e = 0; e < fe.get_nelem(); e++) for (int n = 0; n <= 3; n++) { fe.eval_dnf(x, n, e); } fe.eval_over_r(x, 0, 0); });
    t(pd + "fe ops", [&] { if (fe.get_nbf()) { fe.matrix_element(0, 0, std::function<double(double)>()); fe.matrix_element(1, 1, std::function<double(double)>()); } });
    for (double x : {b(0), b(b.size() - 1), b(0) - 1, b(b.size() - 1) + 1, (double)NAN}) t(pd + vf::fmt("find_element(%g)", x), [&] { size_t e = fe.find_element(x); Vector r(1); r(0) = x; fe.eval_prim(r, e); });
    atomic::basis::FEMRadialBasis r; if (!t(pd + "radial basis", [&] { r = atomic::basis::FEMRadialBasis(fe, nq); })) continue;
    use_radial<double>(g, t, r, pd);
    double at = odd_real(g, 0, std::abs(b(b.size() - 1)) * 1.2); if (r.Nbf()) t(pd + vf::fmt("add_boundary(%g)", at), [&] { auto f2 = fe; f2.add_boundary(at); atomic::basis::FEMRadialBasis r2(f2, nq); r2.overlap(); r.overlap(r2); r2.overlap(r); r.radial_integral(r2, 0); });
  }
}
VF_SECTION("atomic") {
  auto &g = c.rng; Try t{c, ""};
  for (int it = 0; it < c.n(30, 400); it++) {
    t.base = vf::fmt("atomic %d", it); std::string pd, bd; auto p = odd_poly(g, pd, t); if (!p) continue; Vector b = odd_bval(g, g.loguniform(2, 30), bd); pd += bd; int nang = g.integer(1, 4); Eigen::VectorXi l(nang), m(nang);
    for (int i = 0; i < nang; i++) { l(i) = g.coin(0.95) ? g.integer(0, 3) : g.integer(-2, 5); m(i) = g.coin(0.9) ? g.integer(-std::max(l(i), 0), std::max(l(i), 0)) : g.integer(-4, 4); pd += vf::fmt(" %d%+d", l(i), m(i)); } if (g.coin(0.05)) { m.conservativeResize(nang + 1); m(nang) = 0; }
    auto mod = (modelpotential::nuclear_model_t)g.pick({0, 0, 1, 2, 3}); int Z = odd_int(g, 0, 20), Zl = g.coin(0.7) ? 0 : odd_int(g, 0, 5), Zr = g.coin(0.7) ? 0 : odd_int(g, 0, 5), nq = g.coin(0.9) ? g.integer(5, 25) : g.pick({-1, 0, 1}); double rr = odd_real(g, 1e-5, 0.3), Rh = odd_real(g, 0.3, 30); pd += vf::fmt(" model=%d Z=%d Zl=%d Zr=%d nq=%d Rrms=%g Rhalf=%g ", (int)mod, Z, Zl, Zr, nq, rr, Rh);
    bool zd = g.coin(0.2); if (Rh < b.size() * 0 + 1e9 && (Zl || Zr) && b.size() > 1) { bool on = false; for (int i = 0; i < b.size(); i++) on |= b(i) == Rh; if (!on) Zl = Zr = 0; }   // a nucleus inside an element is refused from inside a parallel region
    std::unique_ptr<atomic::basis::TwoDBasis> B; if (!t(pd + "basis", [&] { B = std::make_unique<atomic::basis::TwoDBasis>(Z, mod, rr, p, zd, nq, b, l, m, Zl, Zr, Rh); }) || !B->Nbf()) continue;
    auto &L = *B; t(pd + "one-electron", [&] { L.overlap(); L.kinetic(); L.nuclear(); L.dipole_z(); L.quadrupole_zz(); L.Bz_field(0.1); }); t(pd + "symmetries", [&] { for (int s = -1; s <= 4; s++) { L.get_sym_idx(s); L.get_sym_labels(s); } L.m_indices(0); L.lm_indices(0, 0); L.m_indices(99); });
    t(pd + "Sinvh", [&] { for (int s = 0; s <= 2; s++) L.Sinvh(g.coin(), s); }); Matrix P = Matrix::Random(L.Nbf(), L.Nbf()); P = (P + P.transpose()).eval();
    t(pd + "coulomb before tei", [&] { L.coulomb(P); }); t(pd + "exchange before tei", [&] { L.exchange(P); }); t(pd + "rs before", [&] { L.rs_exchange(P); });
    t(pd + "tei", [&] { L.compute_tei(true); L.coulomb(P); L.exchange(P); }); t(pd + "yukawa", [&] { L.compute_yukawa(g.uniform(0.1, 1)); L.rs_exchange(P); }); t(pd + "wrong density", [&] { L.coulomb(Matrix::Zero(L.Nbf() + 1, L.Nbf() + 1)); });
    size_t e = g.integer(0, (int)L.get_rad_Nel() - 1); t(pd + "values", [&] { L.eval_bf(e, g.uniform(-1, 1), 0.3); Eigen::MatrixXcd a, d, f; L.eval_df(e, 1.0, 0.0, a, d, f); L.eval_df(e, -1.0, 0.0, a, d, f); L.eval_lf(e, 0.2, 0.4); L.bf_list(e); });
    t(pd + "density fit", [&] { L.radial_df_factors(); });
    for (int id : {1, 101, 202}) t(pd + vf::fmt("dft %d", id), [&] { atomic::dftgrid::DFTGrid grid(B.get(), odd_int(g, 2, 6), odd_int(g, 1, 4)); Matrix H; double E, N, T; Matrix Q = P * P.transpose(); Vector none; grid.eval_Fxc(id, none, 0, none, Q, H, E, N, T, 1e-12); });
  }
}
VF_SECTION("diatomic") {
  auto &g = c.rng; Try t{c, ""};
  for (int it = 0; it < c.n(24, 300); it++) {
    t.base = vf::fmt("diatomic %d", it); std::string pd, bd; auto p = odd_poly(g, pd, t); if (!p) continue; Vector b = odd_bval(g, g.uniform(1, 4), bd); pd += bd; int nang = g.integer(1, 4); Eigen::VectorXi l(nang), m(nang);
    for (int i = 0; i < nang; i++) { l(i) = g.coin(0.95) ? g.integer(0, 3) : g.integer(-2, 5); m(i) = g.coin(0.9) ? g.integer(-std::max(l(i), 0), std::max(l(i), 0)) : g.integer(-4, 4); pd += vf::fmt(" %d%+d", l(i), m(i)); } if (g.coin(0.05)) { m.conservativeResize(nang + 1); m(nang) = 0; }
    int Z1 = odd_int(g, 0, 20), Z2 = odd_int(g, 0, 20), nq = g.coin(0.9) ? g.integer(5, 25) : g.pick({-1, 0, 1}); double Rh = g.uniform(0.1, 5); pd += vf::fmt(" Z=%d,%d nq=%d Rhalf=%g ", Z1, Z2, nq, Rh);
    std::unique_ptr<diatomic::basis::TwoDBasis> B; if (!t(pd + "basis", [&] { B = std::make_unique<diatomic::basis::TwoDBasis>(Z1, Z2, Rh, p, nq, b, l, m); }) || !B->Nbf()) continue;
    auto &L = *B; t(pd + "one-electron", [&] { L.overlap(); L.kinetic(); L.nuclear(); L.dipole_z(); L.quadrupole_zz(); L.Bz_field(0.1); }); t(pd + "symmetries", [&] { for (int s = -1; s <= 5; s++) { L.get_sym_idx(s); L.get_sym_labels(s); L.get_sym_mirror_idx(s); } L.m_indices(0); L.m_indices(99); L.m_indices(1, true); });
    t(pd + "Sinvh", [&] { for (int s = 0; s <= 2; s++) L.Sinvh(g.coin(), s); }); Matrix P = Matrix::Random(L.Nbf(), L.Nbf()); P = (P + P.transpose()).eval();
    t(pd + "coulomb before tei", [&] { L.coulomb(P); }); t(pd + "exchange before tei", [&] { L.exchange(P); }); t(pd + "boundaries", [&] { L.remove_boundaries(L.expand_boundaries(P)); L.pure_indices(); });
    if (L.Nbf() < 60) { t(pd + "tei", [&] { L.compute_tei(true); L.coulomb(P); L.exchange(P); }); } t(pd + "wrong density", [&] { L.coulomb(Matrix::Zero(L.Nbf() + 1, L.Nbf() + 1)); });
    size_t e = g.integer(0, (int)L.get_rad_Nel() - 1), q = g.integer(0, std::max(0, nq - 1)); t(pd + "values", [&] { L.eval_bf(e, q, g.uniform(-1, 1), 0.3); L.eval_bf(e, q, 0.1, 0); L.eval_bf(e, q, 0.1, 77); Eigen::MatrixXcd x, y, z; L.eval_df(e, q, 0.3, 0.1, x, y, z); Matrix u, v; L.eval_df(e, q, 1.0, 0, u, v); L.eval_lf(e, q, 0.2, 0, u); L.bf_list(e); L.bf_list_dummy(e); L.bf_list_dummy(e, 1); });
    for (double mu : {0.0, b(b.size() - 1), b(b.size() - 1) + 1, -1.0, (double)NAN}) t(pd + vf::fmt("eval_bf(%g)", mu), [&] { L.eval_bf(mu, 0.3, 0.1); });
    for (int id : {1, 101, 202}) t(pd + vf::fmt("dft %d", id), [&] { diatomic::dftgrid::DFTGrid grid(B.get(), odd_int(g, 2, 6), odd_int(g, 1, 4)); Matrix H; double E, N, T; Matrix Q = P * P.transpose(); Vector none; grid.eval_Fxc(id, none, 0, none, Q, H, E, N, T, 1e-12); });
    t(pd + "projection", [&] { diatomic::twodquad::TwoDGrid grid(B.get(), odd_int(g, 2, 8)); Vector ex(g.integer(0, 2)); ex.setConstant(0.7); grid.gto_projection(1, 0, ex, diatomic::twodquad::PROBE_LEFT); grid.sto_overlap(0, 0, ex, diatomic::twodquad::PROBE_MIDDLE); });
    t(pd + "projection absent m", [&] { diatomic::twodquad::TwoDGrid grid(B.get(), 5); Vector ex(1); ex << 1; grid.gto_projection(5, 5, ex, diatomic::twodquad::PROBE_RIGHT); });
    t(pd + "atom projection without atoms", [&] { diatomic::twodquad::TwoDGrid grid(B.get(), 5); grid.atomic_projection(0, 0, diatomic::twodquad::PROBE_LEFT); });
  }
}
VF_SECTION("spherical_atom") {
  auto &g = c.rng; Try t{c, ""};
  for (int it = 0; it < c.n(30, 400); it++) {
    t.base = vf::fmt("sadatom %d", it); std::string pd, bd; auto p = odd_poly(g, pd, t); if (!p) continue; Vector b = odd_bval(g, g.loguniform(2, 30), bd); int lmax = g.integer(0, 3), Z = odd_int(g, 0, 20), nq = g.coin(0.9) ? g.integer(5, 25) : g.pick({-1, 0, 1}); bool zd = g.coin(0.2), zr = g.coin(0.9); pd += bd + vf::fmt(" lmax=%d Z=%d nq=%d zd=%d zr=%d ", lmax, Z, nq, zd, zr);
    std::unique_ptr<sadatom::basis::TwoDBasis> B; if (!t(pd + "basis", [&] { B = std::make_unique<sadatom::basis::TwoDBasis>(Z, (modelpotential::nuclear_model_t)g.pick({0, 0, 1, 2, 3}), 0.01, p, zd, nq, b, lmax, zr); }) || !B->Nbf()) continue;
    auto &L = *B; size_t n = L.Nbf(); Matrix C = Matrix::Random(n, 2), P = C * C.transpose(); Cube Pl(std::max(lmax, 0) + 1, P); t(pd + "one-electron", [&] { L.overlap(); L.kinetic(); L.kinetic_l(); L.nuclear(); L.Sinvh(); });
    t(pd + "coulomb before tei", [&] { L.coulomb(P); }); t(pd + "exchange before tei", [&] { L.exchange(Pl); }); t(pd + "tei", [&] { L.compute_tei(); L.coulomb(P); L.exchange(Pl); }); t(pd + "exchange other lmax", [&] { L.exchange(Cube(Pl.size() + 1, P)); }); t(pd + "empty exchange", [&] { L.exchange(Cube()); });
    t(pd + "grid", [&] { L.radii(); L.quadrature_weights(); L.electron_density(P); L.electron_density_gradient(P); L.electron_density_laplacian(P); L.kinetic_energy_density(Pl); L.coulomb_screening(P); L.orbitals(C); L.orbitals_derivative(C); L.orbitals_second_derivative(C); });
    t(pd + "xc", [&] { L.xc_screening(P, 1, 7); L.xc_screening(P, 101, 130); L.xc_screening(P, P, 1, 0); }); t(pd + "radii", [&] { L.electron_density_maximum_radius(P); L.vdw_radius(P); L.electron_count_radius(P); }); t(pd + "empty density radii", [&] { Matrix Q = Matrix::Zero(n, n); L.electron_density_maximum_radius(Q); L.vdw_radius(Q); L.electron_count_radius(Q); });
    t(pd + "slater", [&] { L.slater_F(g.integer(0, 4), C.col(0)); L.Rmatrices(); }); t(pd + "extract", [&] { sadatom::basis::extract_naos_per_l(L, Cube(2, C), {odd_int(g, 0, 3), odd_int(g, 0, 3)}); });
  }
}
VF_SECTION("rules") {
  auto &g = c.rng; Try t{c, ""};
  for (int n = -3; n <= 12; n++) {
    t.base = vf::fmt("rule %d", n); Vector x, w, f; t("chebyshev", [&] { chebyshev::chebyshev(n, x, w); }); t("radial chebyshev", [&] { chebyshev::radial_chebyshev(n, x, w); }); t("lobatto", [&] { lobatto::lobatto_compute<double>(n, x, w); });
    for (int m = -2; m <= 6; m++) { t(vf::fmt("angular lobatto m=%d", m), [&] { angular::angular_lobatto(n, m, x, f, w); }); t(vf::fmt("angular chebyshev m=%d", m), [&] { angular::angular_chebyshev(n, m, x, f, w); }); }
    t("compound", [&] { Vector a(2), b(2); a << -0.5, 0.5; b << 1, 1; angular::compound_rule(a, b, n, x, f, w); });
    for (int m = -2; m <= 6; m++) { if (n >= 0) t(vf::fmt("harmonic m=%d", m), [&] { for (double ct : {-1.0, 0.0, 1.0}) spherical_harmonics(n, m, ct, 0.1); }); if (m >= 0) t(vf::fmt("angular basis mmax=%d", m), [&] { Eigen::VectorXi l, mm; atomic::basis::angular_basis(n, m, l, mm); }); }
    t("lm list", [&] { Eigen::VectorXi lm(2), l, m; lm << n, n - 1; diatomic::basis::lm_to_l_m(lm, l, m); }); t("empty lm list", [&] { Eigen::VectorXi lm(0), l, m; diatomic::basis::lm_to_l_m(lm, l, m); });
    if (n < 6) t("gaunt", [&] { gaunt::Gaunt G(n, 2, n); if (n >= 0) { for (int L = 0; L <= n; L++) for (int M = -L; M <= L; M++) { G.coeff(L, M, 1, 0, std::min(n, 1)); } G.cosine_coupling(0, 0, 0, 0); } });
  }
  for (int it = 0; it < c.n(300, 5000); it++) {
    t.base = vf::fmt("grid %d", it); int ne = odd_int(g, 1, 6), ig = odd_int(g, 1, 4), ne0 = odd_int(g, 0, 4), ig0 = odd_int(g, 1, 4), Z = odd_int(g, 0, 118), Zl = odd_int(g, 0, 20), Zr = odd_int(g, 0, 20), mod = g.integer(-1, 6); double R = odd_real(g, 1, 60), ze = odd_real(g, 0.5, 3), rr = odd_real(g, 1e-6, 1), ze0 = odd_real(g, 0.5, 3), Rh = odd_real(g, 0.1, 10), ar = odd_real(g, 0.1, 10); bool add = g.coin();
    t(vf::fmt("normal %d %g %d %g", ne, R, ig, ze), [&] { atomic::basis::normal_grid(ne, R, ig, ze); }); t(vf::fmt("form model=%d Rrms=%g ne=%d R=%g ig=%d z=%g ne0=%d ig0=%d z0=%g Z=%d Zl=%d Zr=%d Rh=%g add=%d r=%g", mod, rr, ne, R, ig, ze, ne0, ig0, ze0, Z, Zl, Zr, Rh, add, ar), [&] { atomic::basis::form_grid((modelpotential::nuclear_model_t)mod, rr, ne, R, ig, ze, ne0, ig0, ze0, Z, Zl, Zr, Rh, add, ar); });
    t(vf::fmt("model potential %d Z=%d size=%g", mod, Z, rr), [&] { std::unique_ptr<modelpotential::ModelPotential> p(modelpotential::get_nuclear_model((modelpotential::nuclear_model_t)mod, Z, rr)); for (double r : {0.0, 1e-300, 0.5, 1e6, (double)INFINITY}) p->V(r); });
    t(vf::fmt("sap %d", Z), [&] { ::sap_effective_charge(Z, std::isnan(rr) ? 0.5 : rr); }); t(vf::fmt("gsz %d", Z), [&] { modelpotential::GSZAtom a(Z); a.V(rr); a.V(0); });
  }
}
VF_SECTION("strings") {
  auto &g = c.rng; Try t{c, ""}; const std::string alphabet = "0123456789-+.eE *,;:xyzHeFGLDApbe_\t\n\\/\"'%"; 
  auto word = [&](int n) { std::string s; for (int i = g.integer(0, n); i > 0; i--) s += g.coin(0.97) ? alphabet[g.integer(0, (int)alphabet.size() - 1)] : (char)g.integer(1, 255); return s; };
  for (int it = 0; it < c.n(2000, 40000); it++) {
    std::string s = word(g.pick({3, 3, 8, 8, 40, 40, 300, 5000})); if (g.coin(0.1)) s = std::string(g.pick({"LDA_X", "gga_c_pbe-", "hf", "-1", "1e", "He", "1,", "2*"})) + std::string(g.pick({1, 30, 64, 127, 128, 129, 255, 256, 257, 1000, 4096}), g.pick({'q', '9', '0', ' ', '*', ','})); t.base = "string '" + s.substr(0, 60) + vf::fmt("' length=%d", (int)s.size()); t("element", [&] { int Z = get_Z(s); if (Z >= 1 && Z <= 118) { std::string x = element_symbols[Z]; (void)x.size(); } }); t("functional", [&] { int id = find_func(s); std::string k = get_keyword(id); }); t("functionals", [&] { int x, cc; parse_xc_func(x, cc, s); }); t("parameters", [&] { scf::parse_xc_params(s); });
    int a = odd_int(g, 0, 20), b = odd_int(g, 0, 20), Q = odd_int(g, -3, 3), M = odd_int(g, 1, 6), Z = odd_int(g, 1, 30); t(vf::fmt("populations %d %d %d %d %d", a, b, Q, M, Z), [&] { scf::parse_nela_nelb(a, b, Q, M, Z); });
  }
  for (int Z = -3; Z <= 130; Z++) { t.base = vf::fmt("Z=%d", Z); t("names", [&] { if (Z >= 0 && Z <= 118) { std::string x = element_symbols[Z]; (void)x.size(); } }); t("keyword", [&] { get_keyword(Z); has_exc(Z); bool a, b, d; is_gga_mgga(Z, a, b, d); is_supported(Z); exact_exchange(Z); is_range_separated(Z); }); }
}
VF_SECTION("linear_algebra") {
  auto &g = c.rng; Try t{c, ""};
  for (int it = 0; it < c.n(200, 2000); it++) {
    int n = g.integer(1, 6), k = g.integer(1, n); t.base = vf::fmt("la %d n=%d k=%d", it, n, k); Matrix A = Matrix::Random(n, n); A = (A * A.transpose()).eval(); if (n && g.coin(0.1)) A(0, 0) = NAN; if (n && g.coin(0.2)) A.row(0).setZero(), A.col(0).setZero();
    for (bool ch : {false, true}) t(vf::fmt("invh chol=%d", ch), [&] { utils::invh<double>(A, ch); }); t("eig", [&] { Vector E; Matrix C; scf::eig_gsym(E, C, A, Matrix::Identity(n, k)); });
    t("eig sub", [&] { Vector E; Matrix C; std::vector<std::vector<Eigen::Index>> idx(g.integer(0, 3)); for (int i = 0; i < n; i++) if (idx.size()) idx[g.integer(0, (int)idx.size() - 1)].push_back(i); scf::eig_gsym_sub(E, C, A, Matrix::Identity(n, n), idx, false); });
    t("exchange_tei", [&] { int a = g.integer(0, 3), b = g.integer(0, 3), c2 = g.integer(0, 3), d = g.integer(0, 3); utils::exchange_tei<double>(Matrix::Random(a * b, c2 * d), a, b, c2, d); });
  }
}
VF_SECTION("checkpoint") {
  auto &g = c.rng; Try t{c, ""};
  for (int it = 0; it < c.n(60, 600); it++) {
    std::string f = c.scratch + vf::fmt("/c%d.chk", it); t.base = vf::fmt("checkpoint %d", it);
    t("write", [&] { Checkpoint k(f, true); k.write("m", Matrix(Matrix::Random(g.integer(0, 3), g.integer(0, 3)))); k.write("v", Vector(Vector::Random(g.integer(0, 3)))); k.write("s", std::string(g.integer(0, 3), 'x')); k.write("d", 1.5); k.write("i", 3); });
    if (g.coin(0.6)) { FILE *fp = fopen(f.c_str(), "r+"); if (fp) { fseek(fp, 0, SEEK_END); long len = ftell(fp); if (g.coin()) { if (!ftruncate(fileno(fp), g.integer(0, (int)len))) {} } else { fseek(fp, g.integer(0, (int)std::min(len - 1, 96l)), SEEK_SET); fputc(g.integer(0, 255), fp); } fclose(fp); } }
    t("read", [&] { Checkpoint k(f, false); Matrix m; Vector v; std::string s; double d; int i; if (k.exist("m")) k.read("m", m); k.read("v", v); k.read("s", s); k.read("d", d); k.read("i", i); k.read("absent", d); });
    remove(f.c_str());
  }
  for (const char *p : {"/nonexistent/dir/x.chk", "", ".", "/"}) { t.base = std::string("checkpoint path '") + p + "'"; t("open", [&] { Checkpoint k(p, false); Matrix m; k.read("m", m); }); }
}
VF_MAIN
