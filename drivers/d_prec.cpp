// P18: the same calculation at double, long double and quad
#include "refatom.h"
#include <HollowNucleus.h>
#include <PointNucleus.h>
#include <GaussianNucleus.h>
#include <RegularizedNucleus.h>
#include <SphericalNucleus.h>
#include <grid.h>
#include <chebyshev.h>
#include <lobatto.h>
#include <legendre_poly.h>
#include <general/scf_helpers.h>
#include <gaunt.h>
#include "utils.h"
#include "quadrature.h"
#include "erfc_expn.h"
#include <Eigen/Eigenvalues>
using namespace helfem;
typedef _Float128 Q;
typedef Eigen::Matrix<Q, Eigen::Dynamic, Eigen::Dynamic> MQ;
struct Item { std::string name; MQ v; long double soft, floor; };
typedef std::vector<Item> Bag;
template <class T> struct Put {
  Bag &b;
  void operator()(const std::string &n, const Mat<T> &m, long double soft = 1, long double fl = 0) { MQ o(m.rows(), m.cols()); for (Eigen::Index i = 0; i < m.rows(); i++) for (Eigen::Index j = 0; j < m.cols(); j++) o(i, j) = (Q)m(i, j); b.push_back({n, o, soft, fl}); }
  void s(const std::string &n, T v, long double soft = 1, long double fl = 0) { MQ o(1, 1); o(0, 0) = (Q)v; b.push_back({n, o, soft, fl}); }
  void vec(const std::string &n, const std::vector<T> &v, long double soft = 1, long double fl = 0) { MQ o(v.size(), 1); for (size_t i = 0; i < v.size(); i++) o(i, 0) = (Q)v[i]; b.push_back({n, o, soft, fl}); }
};
// f.template operator()<T>(Put<T>)
template <class F> void compare(vf::Ctx &c, const std::string &desc, F f, long double K = 1) {
  c.m.begin(desc);
  Bag d, l, q4; { Put<double> p{d}; f(p, double()); } { Put<long double> p{l}; f(p, (long double)0); } { Put<Q> p{q4}; f(p, Q(0)); }
  if (!c.m.require("prec.same_outputs", d.size() == q4.size() && l.size() == q4.size() && d.size() > 0)) return;
  const long double ed = std::numeric_limits<double>::epsilon(), el = std::numeric_limits<long double>::epsilon();
  for (size_t i = 0; i < d.size(); i++) {
    auto &D = d[i].v, &L = l[i].v, &R = q4[i].v;
    if (!c.m.require("prec.shape." + d[i].name, D.rows() == R.rows() && D.cols() == R.cols() && L.rows() == R.rows() && L.cols() == R.cols())) continue;
    Q sc = 0, xd = 0, xl = 0; bool nan = false, same = true; size_t n = 0;
    for (Eigen::Index a = 0; a < R.rows(); a++) for (Eigen::Index b = 0; b < R.cols(); b++) { Q r = R(a, b); if (!(r == r)) nan = true; sc = std::max(sc, (Q)fabsq(r)); xd = std::max(xd, (Q)fabsq(D(a, b) - r)); xl = std::max(xl, (Q)fabsq(L(a, b) - r)); if (!(D(a, b) == D(a, b)) || !(L(a, b) == L(a, b))) nan = true; n++; if (L(a, b) != r) same = false; }
    if (!n) continue;
    if (!c.m.require("prec.finite." + d[i].name, !nan)) continue;
    sc = std::max(sc, (Q)q4[i].floor); if (sc == 0) sc = 1;
    long double rd = (long double)(xd / sc), rl = (long double)(xl / sc), soft = K * d[i].soft;
    c.m.event("quantities"); c.m.event("elements", n);
    if (same) c.m.event("long_equals_quad_exactly");
    c.m.small("prec.double." + d[i].name, rd, 3000 * soft * ed, vf::fmt("scale %.3Lg", (long double)sc));
    // long double must be ~2048 times better than double
    c.m.small("prec.long." + d[i].name, rl, rd * 80 / 2048 + 60 * soft * el, vf::fmt("double err %.3Lg long err %.3Lg eps %.3Lg", rd, rl, rl / el));
  }
}
struct RadCfg { int id, n, nq; std::vector<double> b; bool rf, rd; std::string desc; };
static RadCfg radcfg(vf::Rng &g, int maxel, int maxn, double rlo, double rhi) {
  RadCfg o; o.id = g.pick({3, 4, 4, 4, 5, 8, 9});
  o.n = o.id >= 8 ? g.integer(2, std::min(maxn, 4)) : o.id == 5 ? g.integer(2, std::min(maxn, 6)) : g.integer(3, maxn);
  int nel = g.integer(2, maxel); o.b = random_bval(g, nel, 0.0, g.loguniform(rlo, rhi));
  o.nq = g.integer(10, 40); o.rf = g.coin(0.8); o.rd = o.id == 3 || o.id == 4 ? false : g.coin();
  o.desc = vf::fmt("id=%d nodes=%d rf=%d rd=%d nquad=%d b=[", o.id, o.n, o.rf, o.rd, o.nq) + bstr(o.b) + "]";
  return o;
}
template <class T> atomic::basis::FEMRadialBasisT<T> mkrad(const RadCfg &o) {
  auto poly = make_poly<T>(o.id, o.n);
  polynomial_basis::FiniteElementBasisT<T> fe(poly, to_vec<T>(o.b), true, false, o.rf, o.rd);
  return atomic::basis::FEMRadialBasisT<T>(fe, o.nq);
}
static long double famsoft(int id) { return id >= 9 ? 40 : id == 8 ? 12 : id == 5 ? 5 : 1; }

VF_SECTION("radial") {
  auto &g = c.rng;
  for (int it = 0; it < c.n(24, 240); it++) {
    auto o = radcfg(g, 4, 8, 0.5, 30); int L = g.integer(0, 5); double lam = g.loguniform(0.05, 2); while (lam * o.b.back() > 30) lam /= 2;
    int e = g.integer(0, (int)o.b.size() - 2); double xl = g.uniform(-1, 0.4), xr = g.uniform(xl + 0.1, 1); double al = g.loguniform(0.1, 2);
    int k1 = g.integer(0, 5), k2 = g.integer(0, 5);
    compare(c, vf::fmt("radial L=%d lambda=%.6g e=%d al=%.6g kinds=%d,%d ", L, lam, e, al, k1, k2) + o.desc, [&](auto put, auto t) {
      typedef decltype(t) T; auto B = mkrad<T>(o); typedef typename atomic::basis::FEMRadialBasisT<T>::BasisKind BK; BK kinds[] = {BK::B0, BK::B1, BK::B2, BK::R0, BK::R1, BK::R2};
      long double f = famsoft(o.id);
      put("overlap", B.overlap(), f); put("kinetic", B.kinetic(), f * 4); put("kinetic_l", B.kinetic_l(), f); put("nuclear", B.nuclear(), f);
      for (int n = -2; n <= 4; n++) { put("radial_integral", B.radial_integral(n, e), f); if (n >= 0) put("radial_integral_sub", B.radial_integral(n, e, (T)xl, (T)xr), f); }
      put("bessel_il", B.bessel_il_integral(L, (T)lam, e), 10 * f); if (e > 0) put("bessel_kl", B.bessel_kl_integral(L, (T)lam, e), 10 * f);
      std::function<T(T)> w = [&](T r) { return std::exp(-(T)al * r) / (T(1) + r); };
      put("matrix_element_w", B.matrix_element(kinds[k1], kinds[k2], w), f * 60); put("matrix_element", B.matrix_element(kinds[k1 % 3], kinds[k2 % 3]), f * 60);
      put("matrix_element_el", B.matrix_element(e, kinds[k1], kinds[k2], w), f * 60); put("matrix_element_sub", B.matrix_element(e, kinds[k1], kinds[k2], w, (T)xl, (T)xr), f * 60);
      put("spherical_potential", B.spherical_potential(e), f * 4);
    });
  }
}
static void potentials(vf::Ctx &c) {
  auto &g = c.rng;
  for (int it = 0; it < c.n(20, 150); it++) {
    auto o = radcfg(g, 4, 7, 0.5, 12); int e = g.integer(0, (int)o.b.size() - 2); int Z = g.integer(1, 60), L = g.integer(0, 5), N = g.integer(1, 4);
    double x = g.uniform(0.05, 0.9) * o.b.back(), r0 = g.loguniform(0.5, 5), V0 = g.loguniform(0.1, 5); int ib = g.integer(1, (int)o.b.size() - 1);
    compare(c, vf::fmt("potential Z=%d L=%d N=%d x=%.6g r0=%.6g V=%.6g e=%d ib=%d ", Z, L, N, x, r0, V0, e, ib) + o.desc, [&](auto put, auto t) {
      typedef decltype(t) T; auto B = mkrad<T>(o); long double f = famsoft(o.id);
      modelpotential::PointNucleusT<T> p(Z); modelpotential::HollowNucleusT<T> h(Z, (T)x); modelpotential::SphericalNucleusT<T> s(Z, (T)x); modelpotential::GaussianNucleusT<T> ga(Z, (T)x); modelpotential::RegularizedNucleusT<T> rg(Z, (T)r0);
      const modelpotential::ModelPotentialT<T> *all[] = {&p, &h, &s, &ga, &rg}; const char *nm[] = {"point", "hollow", "sphere", "gaussian", "regularized"};
      for (int k = 0; k < 5; k++) { put(std::string("nucleus_") + nm[k], B.model_potential(all[k], e), f * 4); put(std::string("nucleus_cross_") + nm[k], B.model_potential(B, all[k]), f * 4);
        std::vector<T> vals; for (double r : {0.01, 0.3, 1.0, 3.7}) vals.push_back(all[k]->V((T)(r * x))); put.vec(std::string("V_") + nm[k], vals, 10); }
      // confinement 4 has an essential singularity where the quadrature is capped: not compared
      for (int ic = 1; ic <= 3; ic++) put(vf::fmt("confinement%d", ic), B.confinement_potential(e, N, (T)r0, ic, (T)V0, (T)(x / 3)), f * 10, ic == 2 ? (long double)(ref::factorial(N) * (ref::q)B.overlap(e).cwiseAbs().maxCoeff()) : 0);
      if (ib < (int)o.b.size() - 1) put("offcentre", B.nuclear_offcenter(e, (T)o.b[ib], L), f * 4);
    });
  }
}
VF_SECTION("potentials") { potentials(c); }
VF_SECTION("potentials2") { potentials(c); }
static void twoe(vf::Ctx &c) {
  auto &g = c.rng;
  for (int it = 0; it < c.n(7, 70); it++) {
    auto o = radcfg(g, 3, 5, 0.5, 20); int L = g.integer(0, 6); double lam = g.loguniform(0.1, 2); while (lam * o.b.back() > 20) lam /= 2;
    int e = g.integer(0, (int)o.b.size() - 2), f2 = g.integer(0, (int)o.b.size() - 2);
    if (o.id >= 8) o.n = 2; o.nq = std::min(o.nq, 24);
    compare(c, vf::fmt("twoe L=%d lambda=%.6g e=%d f=%d ", L, lam, e, f2) + o.desc, [&](auto put, auto t) {
      typedef decltype(t) T; auto B = mkrad<T>(o); long double f = famsoft(o.id) * 3;
      put("coulomb", B.twoe_integral(L, e), f); put("yukawa", B.yukawa_integral(L, (T)lam, e), f * 10);
      put("erfc", B.erfc_integral(L, (T)lam, e, f2), f * 10);
      T tol = 100 * std::numeric_limits<T>::epsilon();
      Mat<T> C = B.twoe_integral_cholesky(L, e, tol); put("cholesky", Mat<T>(C * C.transpose()), f * 10);
      C = B.yukawa_integral_cholesky(L, (T)lam, e, tol); put("yukawa_cholesky", Mat<T>(C * C.transpose()), f * 10);
    });
  }
}
VF_SECTION("twoe") { twoe(c); }
VF_SECTION("twoe2") { twoe(c); }
VF_SECTION("values") {
  auto &g = c.rng;
  for (int it = 0; it < c.n(40, 400); it++) {
    auto o = radcfg(g, 4, 9, 0.5, 30); int e = g.integer(0, (int)o.b.size() - 2); auto o2 = radcfg(g, 4, 5, 0.5, 30); o2.b.back() = std::max(o2.b.back(), o.b.back() * 1.1);
    std::vector<double> xs; for (int i = 0; i < 6; i++) xs.push_back(g.uniform(-1, 1)); double rr = g.uniform(0.02, 0.98) * o.b.back(); uint64_t ps = g.next();
    compare(c, vf::fmt("values e=%d r=%.6g ", e, rr) + o.desc + " other " + o2.desc, [&](auto put, auto t) {
      typedef decltype(t) T; auto B = mkrad<T>(o); auto B2 = mkrad<T>(o2); long double f = famsoft(o.id) * 4; Vec<T> x = to_vec<T>(xs);
      put("bf", B.get_bf(e), f); put("df", B.get_df(e), f * 4); put("lf", B.get_lf(e), f * 40); put("bf_at", B.get_bf(x, e), f); put("df_at", B.get_df(x, e), f * 4); put("lf_at", B.get_lf(x, e), f * 40);
      put("wrad", B.get_wrad(e)); put("r", B.get_r(e)); put("r_at", B.get_r(x, e));
      vf::Rng h(ps); Mat<T> C(B.Nbf(), 2); for (Eigen::Index i = 0; i < C.rows(); i++) for (int j = 0; j < 2; j++) C(i, j) = (T)h.gauss(); Mat<T> P = C * C.transpose();
      put("eval_orbs", B.eval_orbs(C, (T)rr), f * 4); put.s("nuclear_density", B.nuclear_density(P), f * 40); put.s("nuclear_density_gradient", B.nuclear_density_gradient(P), f * 400); put("nuclear_orbital", B.nuclear_orbital(C), f * 10);
      put("cross_overlap", B.overlap(B2), f * famsoft(o2.id)); put("cross_integral", B.radial_integral(B2, 1, true, false), f * 4 * famsoft(o2.id));
      put("bval", B.get_bval());
      // metric and its inverse square root through the linear algebra layer
      Mat<T> S = B.overlap(); put("fe_values", B.get_fem().eval_dnf(x, 1, e), f * 4);
      Vec<T> dg = S.diagonal().cwiseSqrt().cwiseInverse(); Mat<T> Sn = dg.asDiagonal() * S * dg.asDiagonal(); Mat<T> X = scf::form_Sinvh<T>(Sn, false), Y = scf::form_Sinvh<T>(Sn, true);
      put("invh_lowdin", Mat<T>(X * X.transpose()), f * 200 * (o.id == 3 ? 10 : 1)); put("invh_chol", Mat<T>(Y * Y.transpose()), f * 200 * (o.id == 3 ? 10 : 1));
    });
  }
}
VF_SECTION("functions") {
  auto &g = c.rng;
  for (int it = 0; it < c.n(200, 3000); it++) {
    int n = g.integer(1, 30), L = g.integer(0, 20), ig = g.integer(1, 5); double x = g.uniform(-0.99, 0.99), z = ig == 5 ? g.uniform(0.3, 0.95) : g.uniform(0.6, 3), rm = g.loguniform(0.1, 100), bx = g.loguniform(0.01, 20); unsigned pn = g.integer(0, 10); double X1 = g.loguniform(0.05, 5), x1 = g.loguniform(0.05, 5); if (x1 > X1) std::swap(x1, X1); int nl = g.integer(2, 40);
    int l1 = g.integer(0, 6), l2 = g.integer(0, 6), L3 = g.integer(0, 12), m1 = g.integer(-l1, l1), m2 = g.integer(-l2, l2);
    compare(c, vf::fmt("functions n=%d L=%d grid=%d x=%.17g z=%.17g rmax=%.17g bx=%.17g Phi=%u %.17g %.17g nl=%d gaunt %d%+d %d%+d %d", n, L, ig, x, z, rm, bx, pn, X1, x1, nl, l1, m1, l2, m2, L3), [&](auto put, auto t) {
      typedef decltype(t) T; Vec<T> xa, wa;
      chebyshev::chebyshev(n, xa, wa); put("chebyshev_x", xa, 1, 1); put("chebyshev_w", wa, 4); chebyshev::radial_chebyshev(n, xa, wa); put("radial_chebyshev_x", xa, 30); put("radial_chebyshev_w", wa, 150);
      lobatto::lobatto_compute<T>(nl, xa, wa); put("lobatto_x", xa, 1, 1); put("lobatto_w", wa, 4);
      put("grid", grid::get_grid<T>((T)rm, n, ig, (T)z), ig == 4 ? 20 : 4);
      { Vec<T> xv(1); xv(0) = (T)x; put("legendreP", legendre::legendre_batch<T>(L, xv), 20); put("legendredP", legendre::dlegendre_batch<T>(L, xv), 40); put("legendred2P", legendre::d2legendre_batch<T>(L, xv), 80); }
      put.s("bessel_i", utils::bessel_il<T>((T)bx, L), 20); put.s("bessel_k", utils::bessel_kl<T>((T)bx, L), 20);
      put.s("Phi", erfc_expn::Phi<T>(pn, (T)X1, (T)x1), 400, std::pow(x1 / X1, pn) / X1);
      if (std::abs(m1 + m2) <= L3) put.s("gaunt", gaunt::gaunt_coefficient_T<T>(L3, m1 + m2, l1, m1, l2, m2), 4);
    });
  }
}

struct AtCfg { RadCfg r; std::vector<int> l, m; int Z, Zl, Zr, model; double Rh, Rrms; bool zd; std::string desc; };
static AtCfg atcfg(vf::Rng &g, int maxel, int maxn, int lmax, int maxang, bool offc) {
  AtCfg a; a.r = radcfg(g, maxel, maxn, 2, 30); if (a.r.id == 9) a.r.id = 8; a.r.nq = g.integer(12, 24); vfa::random_angular(g, a.l, a.m, lmax, maxang, false);
  a.Z = g.integer(1, 20); a.Zl = a.Zr = 0; a.Rh = 0; a.model = 0; a.Rrms = 0; a.zd = a.r.id == 5 || a.r.id == 8 ? g.coin() : false;
  if (offc) { a.Zl = g.integer(0, 9); a.Zr = g.integer(0, 9); a.Rh = a.r.b[1]; } else if (g.coin(0.4)) { a.model = g.integer(1, 3); a.Rrms = g.loguniform(0.01, 0.3) * a.r.b[1]; }
  a.desc = a.r.desc + vf::fmt(" Z=%d Zl=%d Zr=%d Rh=%.6g model=%d Rrms=%.6g zd=%d lm=", a.Z, a.Zl, a.Zr, a.Rh, a.model, a.Rrms, a.zd); for (size_t i = 0; i < a.l.size(); i++) a.desc += vf::fmt("%d%+d ", a.l[i], a.m[i]);
  return a;
}
template <class T> vfa::TwoDBasisT<T> mkat(const AtCfg &a) {
  Eigen::VectorXi lv(a.l.size()), mv(a.l.size()); for (size_t i = 0; i < a.l.size(); i++) { lv(i) = a.l[i]; mv(i) = a.m[i]; }
  return vfa::TwoDBasisT<T>(a.Z, (modelpotential::nuclear_model_t)a.model, (T)a.Rrms, make_poly<T>(a.r.id, a.r.n), a.zd, a.r.nq, to_vec<T>(a.r.b), lv, mv, a.Zl, a.Zr, (T)a.Rh);
}
VF_SECTION("atomic_onee") {
  auto &g = c.rng;
  for (int it = 0; it < c.n(20, 200); it++) {
    auto a = atcfg(g, 4, 6, 4, 6, it % 3 == 0); auto b = atcfg(g, 3, 4, 3, 4, false); double r0 = g.loguniform(0.5, 5), B = g.loguniform(0.01, 2);
    compare(c, "atomic " + a.desc + " other " + b.desc, [&](auto put, auto t) {
      typedef decltype(t) T; auto L = mkat<T>(a); auto L2 = mkat<T>(b); long double f = famsoft(a.r.id) * 4;
      put("at.overlap", L.overlap(), f); put("at.kinetic", L.kinetic(), f * 4); put("at.nuclear", L.nuclear(), f); put("at.dipole", L.dipole_z(), f); put("at.quadrupole", L.quadrupole_zz(), f); put("at.Bz", L.Bz_field((T)B), f);
      put("at.confinement", L.confinement(2, (T)r0, 1, (T)1, (T)0), f * 4); modelpotential::PointNucleusT<T> p(3); put("at.model_potential", L.model_potential(&p), f); put("at.cross", L.overlap(L2), f * famsoft(b.r.id));
    });
  }
}
VF_SECTION("atomic_twoe") {
  auto &g = c.rng;
  for (int it = 0; it < c.n(7, 100); it++) {
    auto a = atcfg(g, 2, 4, it % 3 ? 2 : 1, 3, false); uint64_t ps = g.next(); double lam = g.loguniform(0.1, 1); while (lam * a.r.b.back() > 15) lam /= 2;
    compare(c, vf::fmt("atomic twoe lambda=%.6g ", lam) + a.desc, [&](auto put, auto t) {
      typedef decltype(t) T; auto L = mkat<T>(a); long double f = famsoft(a.r.id) * 10; vf::Rng h(ps); int n = L.Nbf(); Mat<T> C(n, 2); for (int i = 0; i < n; i++) for (int j = 0; j < 2; j++) C(i, j) = (T)h.gauss(); Mat<T> P = C * C.transpose();
      L.compute_tei(true); put("at.coulomb", L.coulomb(P), f); put("at.exchange", L.exchange(P), f); L.compute_yukawa((T)lam); put("at.yukawa", L.rs_exchange(P), f * 10); if (it % 3 == 0) { L.compute_erfc((T)lam); put("at.erfc", L.rs_exchange(P), f * 10); }
    });
  }
}
VF_SECTION("gaunt_tables") {
  auto &g = c.rng;
  for (int it = 0; it < c.n(8, 80); it++) {
    int lm = g.integer(1, 4), Lm = g.integer(1, 2 * lm); std::vector<std::array<int, 5>> probe; for (int i = 0; i < 60; i++) { int l = g.integer(0, lm), lp = g.integer(0, lm), m = g.integer(-l, l), mp = g.integer(-lp, lp); int L = g.integer(0, Lm); if (std::abs(m - mp) <= L) probe.push_back({l, m, L, lp, mp}); }
    compare(c, vf::fmt("gaunt table lmax=%d Lmax=%d n=%d seed %d", lm, Lm, (int)probe.size(), it), [&](auto put, auto t) {
      typedef decltype(t) T; gaunt::GauntT<T> G(std::max(2 * lm, 5), std::max(lm + 2, 5), lm + 2); std::vector<T> v, w, u; std::vector<std::vector<T>> z(6); for (auto &p : probe) { v.push_back(G.coeff(p[2], p[1] - p[4], p[0], p[1], p[3])); w.push_back(G.cosine_coupling(p[0], p[1], p[3], p[4])); u.push_back(G.cosine2_coupling(p[0], p[1], p[3], p[4]));
        int mm = std::min(std::abs(p[1]), p[3]); if (p[1] < 0) mm = -mm; int a = p[0], b = mm, d = p[3];     // equal projections, so that every weight contributes
        z[0].push_back(G.cosine3_coupling(a, b, d, b)); z[1].push_back(G.cosine4_coupling(a, b, d, b)); z[2].push_back(G.cosine5_coupling(a, b, d, b)); z[3].push_back(G.sine2_coupling(a, b, d, b)); z[4].push_back(G.cosine2_sine2_coupling(a, b, d, b)); z[5].push_back(G.mod_coeff(p[0], p[1], p[2], p[1] - p[4], p[3], p[4])); }
      const char *zn[] = {"gaunt.cos3", "gaunt.cos4", "gaunt.cos5", "gaunt.sin2", "gaunt.cos2sin2", "gaunt.mod"}; for (int k = 0; k < 6; k++) put.vec(zn[k], z[k], 4);
      put.vec("gaunt.coeff", v, 4); put.vec("gaunt.cos", w, 4); put.vec("gaunt.cos2", u, 4);
    });
  }
}
// absolute anchors: exactly known results must be reached to each type's own precision
template <class T> Vec<T> lowest(const Mat<T> &S, const Mat<T> &H) {
  Vec<T> d = S.diagonal().cwiseSqrt().cwiseInverse(); Mat<T> D = d.asDiagonal(); Mat<T> Sn = D * S * D; Eigen::LLT<Mat<T>> ch(Sn); Mat<T> Hn = D * H * D;
  Mat<T> Li = ch.matrixL().solve(Mat<T>(Mat<T>::Identity(S.rows(), S.cols()))); Mat<T> F = Li * Hn * Li.transpose(); F = (F + F.transpose().eval()) / T(2);
  Eigen::SelfAdjointEigenSolver<Mat<T>> es(F, Eigen::EigenvaluesOnly); return es.eigenvalues();
}
template <class T> void spectra(vf::Ctx &c, int nodes, int nel) {
  auto &g = c.rng; long double ep = std::numeric_limits<T>::epsilon();
  int l = g.integer(0, 3), Z = g.integer(1, 4); double rmax = (ep > 1e-17L ? 25.0 : ep > 1e-25L ? 30.0 : 50.0) * (l + 1) / Z; std::vector<double> b; for (int i = 0; i <= nel; i++) b.push_back(rmax * std::pow((double)i / nel, 2));
  auto poly = make_poly<T>(4, nodes); polynomial_basis::FiniteElementBasisT<T> fe(poly, to_vec<T>(b), true, false, true, false); atomic::basis::FEMRadialBasisT<T> R(fe, 4 * nodes);
  c.m.begin(vf::fmt("hydrogenlike T=%s Z=%d l=%d nodes=%d nel=%d rmax=%.4g", Name<T>::n, Z, l, nodes, nel, rmax));
  Mat<T> S = R.overlap(), K = R.kinetic(), Kl = R.kinetic_l(), V = R.nuclear();
  Mat<T> H = K + T(l * (l + 1)) * Kl + T(Z) * V; Vec<T> e = lowest<T>(S, H); T ex = -T(Z * Z) / T(2 * (l + 1) * (l + 1)); Q hs = (Q)H.cwiseAbs().maxCoeff() / (Q)S.cwiseAbs().maxCoeff(); (void)hs;
  // rounding in a generalized eigenvalue is relative to the largest one
  long double emax = (long double)e(e.size() - 1), er = fabsl((long double)((e(0) - ex)));
  c.m.small("anchor.hydrogen", er, std::max(200 * ep * emax, 1e-22L), vf::fmt("emax=%.3Lg relative=%.3Lg", emax, er / (long double)-ex));
  // oscillator: 1/2 r^2
  double w = g.uniform(0.3, 2), rm = std::sqrt((ep > 1e-17L ? 60 : ep > 1e-25L ? 70.0 : 110.0) / w); std::vector<double> b2; int ne2 = nel; for (int i = 0; i <= ne2; i++) b2.push_back(rm * i / ne2);
  polynomial_basis::FiniteElementBasisT<T> fe2(poly, to_vec<T>(b2), true, false, true, false); atomic::basis::FEMRadialBasisT<T> R2(fe2, 4 * nodes);
  c.m.begin(vf::fmt("oscillator T=%s l=%d nodes=%d nel=%d rmax=%.4g", Name<T>::n, l, nodes, nel, rm));
  Mat<T> r2 = Mat<T>::Zero(R2.Nbf(), R2.Nbf()); for (size_t k = 0; k < R2.Nel(); k++) { size_t i, j; R2.get_idx(k, i, j); r2.block(i, i, j - i + 1, j - i + 1) += R2.radial_integral(2, k); }
  T W = (T)w; H = R2.kinetic() + T(l * (l + 1)) * R2.kinetic_l() + W * W / T(2) * r2; e = lowest<T>(R2.overlap(), H); emax = (long double)e(e.size() - 1);
  for (int n = 0; n < 3; n++) { er = fabsl((long double)(e(n) - W * (T(2 * n + l) + T(3) / T(2)))); c.m.small("anchor.oscillator", er, std::max(200 * ep * emax, 1e-22L), vf::fmt("n=%d emax=%.3Lg err=%.3Lg", n, emax, er)); }
}
VF_SECTION("spectra") { for (int i = 0; i < c.n(6, 30); i++) { spectra<double>(c, 11, 10); spectra<long double>(c, 13, 10); } }
VF_SECTION("spectra_quad") { for (int i = 0; i < c.n(2, 10); i++) spectra<Q>(c, 15, 14); }
// restricted Hartree-Fock of two-electron ions: energies refine with the type and satisfy the virial theorem
template <class T> void rhf(vf::Ctx &, int Z, const std::vector<double> &b, int nodes, Mat<T> &P, T &E, T &Ek) {
  Eigen::VectorXi l(1), m(1); l(0) = m(0) = 0;
  vfa::TwoDBasisT<T> B(Z, modelpotential::POINT_NUCLEUS, T(0), make_poly<T>(4, nodes), false, 5 * nodes, to_vec<T>(b), l, m, 0, 0, T(0));
  Mat<T> S = B.overlap(), K = B.kinetic(), V = B.nuclear(), H = K + V; Mat<T> X = B.Sinvh(false, 0); B.compute_tei(true);
  Mat<T> F = P.size() ? Mat<T>(H + B.coulomb(P) + B.exchange(P / T(2))) : H; E = 0; T best = 1; int stall = 0;
  for (int it = 0; it < 80; it++) {
    Mat<T> Fo = X.transpose() * F * X; Eigen::SelfAdjointEigenSolver<Mat<T>> es(Fo); Vec<T> c0 = X * es.eigenvectors().col(0);
    P = T(2) * c0 * c0.transpose(); Mat<T> J = B.coulomb(P), Kx = B.exchange(P / T(2)); F = H + J + Kx;
    T En = (P * H).trace() + (P * J).trace() / T(2) + (P * Kx).trace() / T(2); T d = std::abs(En - E); E = En; Ek = (P * K).trace();
    if (d < best * T(0.9)) { best = d; stall = 0; } else if (++stall > 6) break;
    if (it > 4 && d < 4 * std::numeric_limits<T>::epsilon()) break;
  }
}
VF_SECTION("hartree_fock") {
  auto &g = c.rng;
  for (int it = 0; it < c.n(2, 8); it++) {
    int Z = it == 0 ? 2 : g.integer(3, 4), nel = 7, nodes = 11; double rmax = 50.0 / Z; std::vector<double> b; for (int i = 0; i <= nel; i++) b.push_back(rmax * std::pow((double)i / nel, 2.2));
    c.m.begin(vf::fmt("two-electron ion Z=%d nel=%d nodes=%d rmax=%g", Z, nel, nodes, rmax));
    Mat<double> Pd; double Ed, kd; rhf<double>(c, Z, b, nodes, Pd, Ed, kd); Mat<long double> Pl = Pd.cast<long double>(); long double El, kl; rhf<long double>(c, Z, b, nodes, Pl, El, kl); Mat<Q> Pq = Pl.cast<Q>(); Q Eq, kq; rhf<Q>(c, Z, b, nodes, Pq, Eq, kq);
    long double dd = (long double)fabsq((Q)Ed - Eq), dl = (long double)fabsq((Q)El - Eq);
    c.m.small("hf.double", dd, 1e-11L); c.m.small("hf.long", dl, 1e-11L / 500, vf::fmt("double err %.3Lg", dd));
    c.m.small("hf.virial", (long double)(Eq / kq + 1), 1e-6L, vf::fmt("E=%.25Lg", (long double)Eq)); if (Z == 2) c.m.small("hf.helium", (long double)(Eq + 2.861679995612Q), 2e-11L);
    c.m.event("scf_cycles", 3);
  }
}
VF_MAIN
