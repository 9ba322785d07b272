// P07: nuclear models and screened atomic model potentials
#include "util.h"
#include "sap_golden.h"
#include <model_potential.h>
#include <gsz.h>
#include <xc_funcs.h>
#include <memory>
using namespace helfem; using ref::q;
double sap_effective_charge(int Z, double r);

// potential of a unit charge distribution rho(r): -(Q(r)/r + int_r^inf 4 pi s rho ds)
template <class T> void nuclei(vf::Ctx &c) {
  auto &g = c.rng;
  const q eps = (q)std::numeric_limits<T>::epsilon();
  int Z = g.integer(1, 118); T R = (T)g.loguniform(1e-6, 3);
  typedef std::unique_ptr<modelpotential::ModelPotentialT<T>> P;
  c.m.begin(vf::fmt("nuclei T=%s Z=%d Rrms=%.10g", Name<T>::n, Z, (double)R));
  P pt(modelpotential::get_nuclear_model<T>(modelpotential::POINT_NUCLEUS, Z, R)), ga(modelpotential::get_nuclear_model<T>(modelpotential::GAUSSIAN_NUCLEUS, Z, R)),
      sp(modelpotential::get_nuclear_model<T>(modelpotential::SPHERICAL_NUCLEUS, Z, R)), ho(modelpotential::get_nuclear_model<T>(modelpotential::HOLLOW_NUCLEUS, Z, R));
  q Rq = (q)R, mu = sqrtq(1.5Q) / Rq, R0 = sqrtq(5 / 3.0Q) * Rq;
  for (int k = 0; k < 24; k++) {
    double f = k == 0 ? 0 : k < 12 ? g.loguniform(1e-9, 1e-1) : k < 20 ? g.uniform(0.05, 4) : g.loguniform(1, 1e5);
    T r = (T)f * R; if (k == 20) r = R; if (k == 21) r = std::sqrt(T(5) / T(3)) * R;
    q rr = (q)r; std::string ex = vf::fmt("r/R=%.12g", f);
    // defining electrostatics of each distribution, checked by quadrature below
    q vg = rr == 0 ? -Z * 2 / sqrtq(M_PIq) * mu : -Z * erfq(mu * rr) / rr;
    q vs = rr >= R0 ? -Z / rr : -Z / (2 * R0) * (3 - rr * rr / R0 / R0);
    q vh = rr >= Rq ? -Z / rr : -Z / Rq;
    auto cmp = [&](const char *key, T got, q want, long double t) { c.m.small(key, (long double)(((q)got - want) / (eps * fabsq(want))), t, ex); };
    if (r > T(0)) cmp("nuc.point", pt->V(r), -Z / rr, 4);
    cmp("nuc.gaussian", ga->V(r), vg, 24);
    cmp("nuc.spherical", sp->V(r), vs, 24);
    cmp("nuc.hollow", ho->V(r), vh, 8);
  }
  // the closed forms above really are the potentials of distributions of rms radius R
  {
    auto rho = [&](q s) { return powq(mu / sqrtq(M_PIq), 3) * expq(-mu * mu * s * s); };
    q r = Rq * (q)g.uniform(0.1, 3), Q = ref::integrate([&](q s) { return 4 * M_PIq * s * s * rho(s); }, 0, r, 40, 6), O = ref::integrate([&](q s) { return 4 * M_PIq * s * rho(s); }, r, r + 12 * Rq, 40, 24);
    q ms = ref::integrate([&](q s) { return 4 * M_PIq * s * s * s * s * rho(s); }, 0, 14 * Rq, 40, 24);
    T rt = (T)r;
    c.m.small("nuc.gaussian_electrostatics", (long double)(((q)ga->V(rt) + Z * (Q / r + O)) / (Z / r)), 64 * (long double)eps + 1e-25L);
    c.m.small("nuc.gaussian_rms", (long double)(sqrtq(ms) / Rq - 1), 1e-25L);
    q rs = R0 * (q)g.uniform(0.05, 0.95), d0 = 3 / (4 * M_PIq * powq(R0, 3)), V = -Z * d0 * (4 * M_PIq * rs * rs / 3 + 2 * M_PIq * (R0 * R0 - rs * rs));
    c.m.small("nuc.sphere_electrostatics", (long double)(((q)sp->V((T)rs) - V) / V), 64 * (long double)eps + 1e-25L);
  }
  // the kinks are announced to the quadrature, smooth models announce none
  auto bp = [&](P &p, T a, T b) { return p->breakpoints(a, b); };
  auto b1 = bp(ho, R / 2, R * 2), b2 = bp(sp, R / 2, R * 2);
  c.m.require("nuc.breakpoints", b1.size() == 1 && b1[0] == R && b2.size() == 1 && fabsq((q)b2[0] - R0) <= 8 * eps * R0 && bp(ho, R * 2, R * 3).empty() && bp(sp, R * 2, R * 3).empty() && bp(ho, R / 4, R / 2).empty() && bp(ho, R, R * 2).empty() && bp(pt, R / 2, R * 2).empty());
  // resizing to a very different size and evaluating anywhere: same as building it with that size
  for (int k = 0; k < 8; k++) {
    T f = (T)g.loguniform(1e-5, 1e5), r = (T)g.loguniform(1e-8, 1e4) * R;
    modelpotential::GaussianNucleusT<T> x(Z, R * f); x.set_mu((T)mu); c.m.require("nuc.set_mu", x.get_mu() == (T)mu && fabsq((q)x.V(r) - (q)ga->V(r)) <= 64 * eps * fabsq((q)ga->V(r)), vf::fmt("built at %.3g R, r=%.3g R", (double)f, (double)(r / R)));
    modelpotential::HollowNucleusT<T> h(Z, R * f); h.set_R(R); c.m.require("nuc.set_R", h.get_R() == R && h.V(r) == ho->V(r));
    modelpotential::SphericalNucleusT<T> s(Z, R * f); s.set_R0((T)R0); c.m.require("nuc.set_R0", s.get_R0() == (T)R0 && fabsq((q)s.V(r) - (q)sp->V(r)) <= 64 * eps * fabsq((q)sp->V(r)));
  }
  c.m.require("nuc.unknown_rejected", !vf::thrown([&] { P p(modelpotential::get_nuclear_model<T>(modelpotential::NOSUCH_NUCLEUS, Z, R)); }).empty() && !vf::thrown([&] { P p(modelpotential::get_nuclear_model<T>((modelpotential::nuclear_model_t)77, Z, R)); }).empty());
}
VF_SECTION("nuclei_double") { for (int i = 0; i < c.n(800, 6000); i++) nuclei<double>(c); }
VF_SECTION_WIDE("nuclei_wide") { for (int i = 0; i < c.n(200, 1500); i++) nuclei<long double>(c); for (int i = 0; i < c.n(200, 1500); i++) nuclei<_Float128>(c); }

template <class T> void regularized(vf::Ctx &c) {
  auto &g = c.rng;
  const q eps = (q)std::numeric_limits<T>::epsilon();
  T a = (T)g.loguniform(0.2, 12); int Z = g.integer(1, 118);
  c.m.begin(vf::fmt("regularized T=%s Z=%d a=%.10g", Name<T>::n, Z, (double)a));
  std::unique_ptr<modelpotential::ModelPotentialT<T>> p(modelpotential::get_nuclear_model<T>(modelpotential::REGULARIZED_NUCLEUS, Z, a));
  auto *rp = dynamic_cast<modelpotential::RegularizedNucleusT<T> *>(p.get());
  if (!c.m.require("reg.type", rp && rp->get_a() == a)) return;
  q A = (q)a, B = (q)rp->get_b(), sp = sqrtq(M_PIq);
  // the orbital behind the potential is normalised
  auto phi2 = [&](q r) { q h = -r * erfq(A * r) - B * expq(-A * A * r * r); return 4 * r * r * expq(2 * h); };
  q norm = 0; for (q lo = 0, hi = 0.25Q / A; lo < 60; lo = hi, hi = hi < 1 ? hi * 2 : hi + 4) norm += ref::integrate(phi2, lo, hi, 30);
  c.m.small("reg.normalized", (long double)(norm - 1), 1e-8L);
  for (int k = 0; k < 24; k++) {
    T r = (T)(k == 0 ? 0 : k < 12 ? g.loguniform(1e-12, 1e-2) : g.loguniform(1e-2, 30)) / T(Z);
    q x = Z * (q)r, e = expq(-A * A * x * x);
    q erx = x < 1e-3Q ? 0 : erfq(A * x) / x;
    if (x < 1e-3Q) { q y = A * x, t = 1, s = 0; for (int n = 0; n < 30; n++) { s += t / (2 * n + 1); t *= -y * y / (n + 1); } erx = 2 * A / sp * s; }
    q h1r = -erx - 2 * A / sp * e + 2 * A * A * B * e, h1 = h1r * x, h2 = -4 * A / sp * e + 4 * A * A * A * x * x / sp * e + 2 * A * A * B * e - 4 * powq(A, 4) * B * x * x * e;
    q V1 = -0.5Q + h1r + (h2 + h1 * h1) / 2, scale = 1 + A + A * A * B + 1 / (x + 1 / (A + 1));
    c.m.small("reg.potential", (long double)(((q)p->V(r) - (q)Z * Z * V1) / (eps * Z * Z * scale)), 400, vf::fmt("Zr=%.12g", (double)x));
    if (A * x > 9) c.m.small("reg.coulomb_tail", (long double)((q)p->V(r) * (q)r / Z + 1), 1e-12L);
  }
}
VF_SECTION("regularized") {
  for (int i = 0; i < c.n(40, 300); i++) regularized<double>(c);
  for (int i = 0; i < c.n(8, 60); i++) regularized<long double>(c);
  for (int i = 0; i < c.n(2, 16); i++) regularized<_Float128>(c);
  for (double a : {1e4, 1e6}) { c.m.begin(vf::fmt("regularized out of range a=%g", a)); c.m.require("reg.rejects", !vf::thrown([&] { modelpotential::RegularizedNucleus n(1, a); }).empty()); }
}

// Green-Sellin-Zachor 1969, table of d for Z=1..103
static const double gsz_d[103] = {1.00, 0.215, 0.563, 0.858, 0.979, 0.880, 0.776, 0.708, 0.575, 0.500, 0.561, 0.621, 0.729, 0.817, 0.868, 0.885, 0.881, 0.862, 1.006, 1.154, 1.116, 1.060, 0.996, 0.837, 0.866, 0.807, 0.751, 0.700, 0.606, 0.612, 0.631, 0.649, 0.663, 0.675, 0.684, 0.689, 0.744, 0.798, 0.855, 0.866, 0.831, 0.825, 0.855, 0.803, 0.788, 0.737, 0.754, 0.775, 0.810, 0.841, 0.870, 0.896, 0.919, 0.940, 1.022, 1.108, 1.150, 1.081, 0.970, 0.938, 0.905, 0.873, 0.842, 0.862, 0.830, 0.754, 0.728, 0.702, 0.677, 0.654, 0.665, 0.672, 0.676, 0.679, 0.680, 0.680, 0.679, 0.661, 0.657, 0.671, 0.690, 0.708, 0.726, 0.744, 0.761, 0.777, 0.818, 0.859, 0.899, 0.927, 0.887, 0.880, 0.872, 0.832, 0.822, 0.842, 0.830, 0.790, 0.778, 0.766, 0.754, 0.742, 0.755};
VF_SECTION("gsz") {
  auto &g = c.rng;
  for (int Z = 1; Z <= 103; Z++) {
    c.m.begin(vf::fmt("GSZ Z=%d", Z));
    double d = 0, H = 0; std::string t = vf::thrown([&] { GSZ::GSZ_parameters(Z, d, H); });
    if (!c.m.require("gsz.supported", t.empty(), t)) continue;
    c.m.close("gsz.d", d, gsz_d[Z - 1], 1e-12); c.m.close("gsz.H", H, gsz_d[Z - 1] * powl(Z - 1, 0.4L), 1e-12 * (1 + H));
    modelpotential::GSZAtom at(Z), at2(Z, d, H);
    Vector rv(40);
    for (int i = 0; i < 40; i++) rv(i) = i < 1 ? 1e-14 : g.loguniform(1e-10, 60 * d);
    std::sort(rv.data(), rv.data() + 40);
    Vector zv = GSZ::Z_GSZ(rv, Z);
    double prev = Z * (1 + 1e-14);
    for (int i = 0; i < 40; i++) {
      q want = 1 + (Z - 1) / (1 + expm1q((q)rv(i) / (q)d) * (q)H);
      // exp(r/d)-1 cancels at small r: absolute error eps*H
      long double tol = 8e-16L * Z * (1 + H);
      c.m.close("gsz.charge", zv(i), (long double)want, tol, vf::fmt("r=%.10g", rv(i)));
      c.m.close("gsz.charge_scalar", GSZ::Z_GSZ(rv(i), Z, d, H), zv(i), tol);
      c.m.close("gsz.potential", -at.V(rv(i)) * rv(i), (long double)want, 2 * tol); c.m.close("gsz.same_constructors", at2.V(rv(i)), at.V(rv(i)), 1e-13 * fabs(at.V(rv(i))));
      c.m.require("gsz.monotone", zv(i) <= prev + (double)tol && zv(i) >= 1 - 1e-14, vf::fmt("r=%g", rv(i))); prev = zv(i);
    }
    c.m.close("gsz.origin", zv(0), Z, 1e-11 * Z); c.m.close("gsz.tail", GSZ::Z_GSZ(60 * d, Z, d, H), 1, 1e-12 * Z);
  }
  for (int Z : {0, -1, -5, 104, 105, 118, 1000}) { c.m.begin(vf::fmt("GSZ unsupported Z=%d", Z)); double d, H; c.m.require("gsz.rejects", !vf::thrown([&] { GSZ::GSZ_parameters(Z, d, H); }).empty() && !vf::thrown([&] { modelpotential::GSZAtom a(Z); }).empty()); }
}
VF_SECTION("thomas_fermi") {
  auto &g = c.rng;
  // the universal function of the Thomas-Fermi atom (published values)
  const double tx[] = {0.1, 0.5, 1, 2, 5, 10, 20}, tp[] = {0.881697, 0.606987, 0.424008, 0.243009, 0.078808, 0.024314, 0.005785};
  for (int Z = 1; Z <= 118; Z++) {
    c.m.begin(vf::fmt("TF Z=%d", Z));
    q k = cbrtq(128 * (q)Z / (9 * M_PIq * M_PIq));
    modelpotential::TFAtom at(Z);
    Vector rv(30); for (int i = 0; i < 30; i++) rv(i) = g.loguniform(1e-12, 50); std::sort(rv.data(), rv.data() + 30);
    Vector zv = GSZ::Z_thomasfermi(rv, Z); double prev = Z * (1 + 1e-14);
    for (int i = 0; i < 30; i++) {
      q x = (q)rv(i) * k, s = sqrtq(x), al = 0.7280642371Q, be = -0.5430794693Q, ga = 0.3612163121Q, w = 1 + al * s + be * x * expq(-ga * s);
      q want = Z * w * w * expq(-2 * al * s);
      c.m.close("tf.charge", zv(i), (long double)want, 1e-12L * (long double)want + 1e-15L * (long double)(Z * expq(-2 * al * s)), vf::fmt("r=%g", rv(i)));
      c.m.close("tf.scalar", GSZ::Z_thomasfermi(rv(i), Z), zv(i), 1e-13 * Z); c.m.close("tf.potential", -at.V(rv(i)) * rv(i), zv(i), 1e-13 * Z);
      c.m.require("tf.monotone", zv(i) <= prev * (1 + 1e-13) && zv(i) >= 0); prev = zv(i);
    }
    for (int i = 0; i < 7; i++) c.m.close("tf.universal", GSZ::Z_thomasfermi(tx[i] / (double)k, Z) / Z, tp[i], 4e-3, vf::fmt("x=%g", tx[i]));
    c.m.close("tf.origin", GSZ::Z_thomasfermi(0.0, Z), Z, 1e-12 * Z);
  }
}
VF_SECTION("sap") {
  auto &g = c.rng;
  for (int Z = 1; Z <= 118; Z++) {
    c.m.begin(vf::fmt("SAP Z=%d", Z));
    modelpotential::SAPAtom at(Z);
    c.m.close("sap.origin", sap_effective_charge(Z, 0.0), Z, 1e-12 * Z); c.m.close("sap.below_origin", sap_effective_charge(Z, -1.0), Z, 1e-12 * Z);
    for (double r : {40.0, 41.0, 1e3, 1e10}) c.m.close("sap.tail", sap_effective_charge(Z, r), 0, 1e-11);
    std::vector<double> y(sap_n);
    for (int i = 0; i < sap_n; i++) y[i] = sap_effective_charge(Z, sap_x[i]);
    for (int b = 0; b * sap_block < sap_n; b++) {
      long double s = 0, sc = 0; for (int i = b * sap_block; i < sap_n && i < (b + 1) * sap_block; i++) { long double w = 1 + 0.25L * ((i * 7 + 3) % 11); s += y[i] * w; sc += fabsl(y[i]) * w; }
      c.m.close("sap.table", s, sap_sum[Z - 1][b], 1e-12L * sc + 1e-11L, vf::fmt("block %d (r=%.6g..)", b, sap_x[b * sap_block]));
    }
    for (int i = 0; i + 1 < sap_n; i++) {
      c.m.require("sap.monotone", y[i + 1] <= y[i] + 1e-12 && std::isfinite(y[i]), vf::fmt("r=%.10g", sap_x[i + 1]));
      double f = g.uniform(0.02, 0.98), r = sap_x[i] + f * (sap_x[i + 1] - sap_x[i]), v = sap_effective_charge(Z, r);
      double fr = (r - sap_x[i]) / (sap_x[i + 1] - sap_x[i]);
      c.m.close("sap.interpolation", v, y[i] + fr * (y[i + 1] - y[i]), 1e-9 * fabs(y[i] - y[i + 1]) + 1e-13 * Z, vf::fmt("r=%.10g", r));
      if (i % 50 == 0) c.m.close("sap.potential", at.V(r) * r, -v, 1e-14 * Z + 1e-15);
    }
  }
  for (int Z : {0, -1, -7, 119, 120, 5000}) for (double r : {0.0, 0.5, 100.0}) { c.m.begin(vf::fmt("SAP unsupported Z=%d r=%g", Z, r)); c.m.require("sap.outside_range_zero", sap_effective_charge(Z, r) == 0.0); }
}
VF_SECTION("sapfe_dummy") {
  c.m.begin("SAPFE dummy centre");
  modelpotential::SAPFEAtom a(0); for (double r : {1e-3, 1.0, 50.0, 1e4}) c.m.require("sapfe.dummy_zero", a.V(r) == 0.0 && a.breakpoints(0, 1e9).empty());
  for (int Z : {1, 2, 10, 26, 60, 118}) {
    c.m.begin(vf::fmt("SAPFE Z=%d", Z));
    modelpotential::SAPFEAtom s(Z), s2(Z, XC_LDA_X, 0); atomdb::Atom at(Z);
    for (int i = 0; i < 40; i++) { double r = c.rng.loguniform(1e-6, 80); double v = s.V(r); c.m.close("sapfe.potential", -v * r, at.effective_charge(r, XC_LDA_X, 0), 1e-12 * Z); c.m.close("sapfe.default_functional", v, s2.V(r), 1e-13 * fabs(v)); }
    c.m.close("sapfe.origin", -s.V(1e-10) * 1e-10, Z, 1e-6 * Z);
    Vector b = at.element_boundaries(); auto bp = s.breakpoints(0.01, 39.0); size_t n = 0; for (int i = 0; i < b.size(); i++) if (b(i) > 0.01 && b(i) < 39.0) n++;
    c.m.require("sapfe.breakpoints", bp.size() == n && n > 0);
  }
  for (int Z : {-1, 119, 500}) { c.m.begin(vf::fmt("SAPFE unsupported Z=%d", Z)); c.m.require("sapfe.rejects", !vf::thrown([&] { modelpotential::SAPFEAtom s(Z); }).empty()); }
}
VF_MAIN
