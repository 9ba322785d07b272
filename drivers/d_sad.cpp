// P12: spherically averaged atoms
#include "refsad.h"
#include "refatom.h"
#include <xc.h>
#include <general/dftfuncs.h>
using namespace helfem; using namespace vfs;

static Matrix rndsym(vf::Rng &g, int n, int kind) { return rnd<double>(g, n, kind); }
static void onee(vf::Ctx &c) {
  auto &g = c.rng; auto a = make(g, 5, 6, 0.5, 40, 4, false, g.coin(0.8)); c.m.begin("onee " + a.desc); auto &R = a.R; auto &L = a.lib; long double T = 4000.0L * a.nn * a.nn; int n = 40; auto gb = vfr::geo(R);
  c.m.require("sad.shape", (int)L.Nbf() == R.nbf && L.charge() == a.Z && (int)L.get_rad_Nel() == R.nel());
  auto ref1 = [&](std::function<q(q)> f, int d = 0) { return R.matrix(R.B(d), R.B(d), f, n, gb); };
  cmp_matrix<double>(c.m, "sad.overlap", L.overlap(), ref1([](q) { return (q)1; }), T);
  ref::qmat K = R.matrix(R.B(1), R.B(1), [](q) { return 0.5Q; }, n, gb); cmp_matrix<double>(c.m, "sad.kinetic", L.kinetic(), K, T);
  cmp_matrix<double>(c.m, "sad.kinetic_l", L.kinetic_l(), R.matrix(R.R(0), R.R(0), [](q) { return 0.5Q; }, n, gb), T);
  // 1/r weights: write r^k B B = r^(k+2) (B/r)(B/r)
  auto pw = [&](int k) { return R.matrix(R.R(0), R.R(0), [k](q r) { return powq(r, k + 2); }, n, gb); };
  ref::qmat V = pw(-1); for (auto &r : V) for (auto &v : r) v *= -a.Z; cmp_matrix<double>(c.m, "sad.nuclear", L.nuclear(), V, T);
  auto rm = L.Rmatrices(); c.m.require("sad.rmatrices_orders", rm.size() == 5); for (auto &p : rm) cmp_matrix<double>(c.m, vf::fmt("sad.r^%d", p.first), p.second, pw(p.first), T);
  // user potential and model potential through both routes
  double al = g.uniform(0.05, 0.6); auto pf = [al](double r) { return -std::exp(-al * r); };
  cmp_matrix<double>(c.m, "sad.potential", L.potential(pf), ref1([al](q r) { return -expq(-(q)al * r); }), 1e6L);
  double rb = g.uniform(0, a.b.back()); auto st = [rb](double r) { return r < rb ? rb - r : 0.5 * (r - rb) * (r - rb); }; ref::qmat ST = R.matrix(R.B(0), R.B(0), [rb](q r) { return r < (q)rb ? (q)rb - r : 0.5Q * (r - (q)rb) * (r - (q)rb); }, n, {(q)rb}); cmp_matrix<double>(c.m, "sad.potential_break", L.potential(st, {rb}), ST, 1e6L);
  c.m.require("sad.no_confinement", L.confinement(3, 2.0, 0, 5.0, 0).norm() == 0);
  // S^-1/2
  Matrix X = L.Sinvh(), I = X.transpose() * L.overlap() * X; c.m.small("sad.Sinvh", (long double)(I - Matrix::Identity(I.rows(), I.cols())).cwiseAbs().maxCoeff(), 1e-9L * a.nn * a.nn);
  // cross overlap with another grid
  auto o2 = make(g, 4, 6, 0.5, 40, 2); cmp_matrix<double>(c.m, "sad.cross_overlap", L.overlap(o2.lib), vfr::cross(R, o2.R, 0, 0, nullptr, 40), 1e5L, 0, 0, o2.desc);
  // finite nucleus = generic model potential route
  double rrms = g.loguniform(1e-5, 1e-4); auto poly = make_poly<double>(a.id, a.nn); auto nm = g.pick({modelpotential::GAUSSIAN_NUCLEUS, modelpotential::SPHERICAL_NUCLEUS, modelpotential::HOLLOW_NUCLEUS});
  sadatom::basis::TwoDBasis F(a.Z, nm, rrms, poly, a.zd, a.nq, to_vec<double>(a.b), a.lmax, a.zr); std::unique_ptr<modelpotential::ModelPotential> mp(modelpotential::get_nuclear_model(nm, a.Z, rrms)); Matrix FV = F.nuclear(); c.m.require("sad.finite_nucleus", FV.allFinite() && (FV - L.model_potential(mp.get())).cwiseAbs().maxCoeff() <= 1e-12 * FV.cwiseAbs().maxCoeff() && (FV - L.nuclear()).cwiseAbs().maxCoeff() <= 30 * a.Z * std::pow(rrms, 1) * std::pow(a.nn, 4) / a.b[1] * (1 + 1 / a.b[1]) + 1e-11 * FV.cwiseAbs().maxCoeff(), vf::fmt("model=%d %g", (int)nm, (double)(FV - L.nuclear()).cwiseAbs().maxCoeff()));
}
VF_SECTION("one_electron") { for (int i = 0; i < c.n(60, 500); i++) onee(c); }

VF_SECTION("one_electron_large") { for (int i = 0; i < c.n(9, 80); i++) { vfr::Big b(1 + i % 2); onee(c); } }

static Cube random_cube(vf::Rng &g, const SB &a, int kind) { Cube P; for (int l = 0; l <= a.lmax; l++) { P.push_back(rndsym(g, a.R.nbf, kind) * std::pow(10.0, g.uniform(-2, 1))); if (g.coin(0.15)) P[l].setZero(); } return P; }
// K_lout = -sum_{lin,L} (2 lin+1) (lin L lout; 000)^2 K^L[P_lin]
static q threej2(int a, int b, int c) { q G = ref::gaunt(a, 0, b, 0, c, 0); return G * sqrtq(4 * M_PIq / ((2 * a + 1) * (2 * b + 1) * (2 * c + 1))); }
static std::vector<qm> ref_exchange(const SB &a, const std::vector<Ref2e> &t, const Cube &P, std::function<q(int)> fac) {
  std::vector<qm> K(a.lmax + 1, qm(a.R.nbf, std::vector<q>(a.R.nbf, 0))); qm J, k;
  for (int li = 0; li <= a.lmax; li++) for (size_t L = 0; L < t.size(); L++) { bool any = false; for (int lo = 0; lo <= a.lmax; lo++) any = any || fabsq(threej2(li, L, lo)) > 1e-25Q; if (!any) continue; jk(a.R, t[L], toq<double>(P[li]), J, k); for (int lo = 0; lo <= a.lmax; lo++) { q w = -(q)(2 * li + 1) * threej2(li, L, lo) * fac(L); for (int i = 0; i < a.R.nbf; i++) for (int j = 0; j < a.R.nbf; j++) K[lo][i][j] += w * k[i][j]; } }
  return K;
}
static q cmax(const std::vector<qm> &K) { q s = 0; for (auto &k : K) for (auto &r : k) for (q v : r) s = std::max(s, fabsq(v)); return s; }
static double pmax(const Cube &P) { double m = 0; for (auto &p : P) m = std::max(m, p.cwiseAbs().maxCoeff()); return m; }
static void twoe(vf::Ctx &c) {
  auto &g = c.rng; auto a = make(g, 3, 5, 0.5, 20, 3, false, g.coin(0.8)); int kind = g.integer(0, 1); c.m.begin(vf::fmt("jk P=%d ", kind) + a.desc); auto &L = a.lib; Cube P = random_cube(g, a, kind); Matrix Pt = total(P);
  c.m.require("sad.before_tei_refused", !vf::thrown([&] { L.coulomb(Pt); }).empty() && !vf::thrown([&] { L.exchange(P); }).empty() && !vf::thrown([&] { L.rs_exchange(P); }).empty());
  std::vector<Ref2e> t; for (int l = 0; l <= 2 * a.lmax; l++) t.push_back(build(a.R, coul(l)));
  if (g.coin()) L.compute_yukawa(0.8); L.compute_tei(); q eps = 2.2e-16Q;
  q tr = 1e-12Q * 4 * M_PIq * a.R.nbf * (a.lmax + 1) * (q)pmax(P);
  qm J, K0; jk(a.R, t[0], toq<double>(Pt), J, K0); q sj = 0; for (auto &r : J) for (q &v : r) { v *= 4 * M_PIq; sj = std::max(sj, fabsq(v)); }
  cmp_matrix<double>(c.m, "sad.coulomb", L.coulomb(Pt), J, 5000 + (long double)(sj > 0 ? tr / (eps * sj) : 0), (q)pmax(P) * 1e-3Q);
  auto Kr = ref_exchange(a, t, P, [](int) { return (q)1; }); Cube K = L.exchange(P); q sk = cmax(Kr); if (!c.m.require("sad.exchange_slices", K.size() == P.size())) return;
  for (int l = 0; l <= a.lmax; l++) cmp_matrix<double>(c.m, "sad.exchange", K[l], Kr[l], 5000 + (long double)(sk > 0 ? tr / (eps * sk) : 0), std::max(sk, (q)pmax(P) * 1e-3Q), 0, vf::fmt("l=%d", l));
  // repeated calls and later range separation do not disturb the bare result
  L.compute_erfc(0.4); Cube K2 = L.exchange(P); double d = 0; for (size_t l = 0; l < K.size(); l++) d = std::max(d, (K[l] - K2[l]).cwiseAbs().maxCoeff()); c.m.require("sad.exchange_repeatable", d == 0);
  Cube bad = P; bad.push_back(P[0]); c.m.require("sad.exchange_rejects_wrong_l", !vf::thrown([&] { L.exchange(bad); }).empty());
  // radial Slater integral of one orbital
  Vector v(a.R.nbf); for (int i = 0; i < v.size(); i++) v(i) = g.gauss(); int k = g.integer(0, 2 * a.lmax); Matrix vv = v * v.transpose(); qm Jk, Kk; jk(a.R, t[k], toq<double>(vv), Jk, Kk); q F = 0, Fm = 0; for (int i = 0; i < v.size(); i++) for (int j = 0; j < v.size(); j++) { q u = Jk[i][j] * (q)vv(i, j); F += u; Fm += fabsq(u); }
  c.m.small("sad.slater_F", (long double)(((q)L.slater_F(k, v) - F) / (eps * Fm)), 20000, vf::fmt("k=%d", k));
  Vector w(a.R.nbf + 1); w.setZero(); c.m.require("sad.slater_rejects_shape", !vf::thrown([&] { L.slater_F(0, w); }).empty());
}
VF_SECTION("two_electron") { for (int i = 0; i < c.n(40, 300); i++) twoe(c); }
VF_SECTION("two_electron_large") { for (int i = 0; i < c.n(4, 50); i++) { vfr::Big b(1 + i % 2); twoe(c); } }
VF_SECTION("yukawa") {
  auto &g = c.rng;
  for (int i = 0; i < c.n(16, 150); i++) {
    auto a = make(g, 3, 5, 1, 12, 2); double lam = g.loguniform(0.1, 2); int order = g.integer(0, 2); c.m.begin(vf::fmt("yukawa lambda=%.17g order=%d ", lam, order) + a.desc); auto &L = a.lib; Cube P = random_cube(g, a, g.integer(0, 1));
    std::vector<Ref2e> t; for (int l = 0; l <= 2 * a.lmax; l++) t.push_back(build(a.R, yuk(l, (q)lam)));
    auto Kr = ref_exchange(a, t, P, [lam](int L) { return (q)lam * (2 * L + 1); }); q sk = cmax(Kr);
    if (order == 1) L.compute_erfc(0.3); if (order == 2) { L.compute_tei(); L.compute_yukawa(2 * lam); } L.compute_yukawa(lam); Cube K = L.rs_exchange(P);
    q tr = 1e-12Q * 4 * M_PIq * (q)lam * a.R.nbf * (a.lmax + 1) * (q)pmax(P);
    for (int l = 0; l <= a.lmax; l++) cmp_matrix<double>(c.m, "sad.yukawa", K[l], Kr[l], 50000 + (long double)(sk > 0 ? tr / (2.2e-16Q * sk) : 0), std::max(sk, (q)pmax(P) * 1e-3Q), 0, vf::fmt("l=%d order=%d", l, order));
  }
}
// the averaged atom is the fully resolved atom with every m of a shell equally filled
VF_SECTION("against_full") {
  auto &g = c.rng;
  for (int i = 0; i < c.n(24, 200); i++) {
    auto a = make(g, 2, 4, 1, 10, 2); int rs = g.integer(0, 2); double mu = g.loguniform(0.1, 1.2); c.m.begin(vf::fmt("full rs=%d mu=%g ", rs, mu) + a.desc); Cube P = random_cube(g, a, g.integer(0, 1)); auto &L = a.lib; std::vector<int> ls, ms; for (int l = 0; l <= a.lmax; l++) for (int m = -l; m <= l; m++) { ls.push_back(l); ms.push_back(m); }
    Eigen::VectorXi lv = Eigen::Map<Eigen::VectorXi>(ls.data(), ls.size()), mv = Eigen::Map<Eigen::VectorXi>(ms.data(), ms.size());
    atomic::basis::TwoDBasisT<double> A(a.Z, modelpotential::POINT_NUCLEUS, 0.0, make_poly<double>(a.id, a.nn), a.zd, a.nq, to_vec<double>(a.b), lv, mv, 0, 0, 0.0);
    int nr = a.R.nbf, N = nr * ls.size(); Matrix D = Matrix::Zero(N, N), Pt = Matrix::Zero(nr, nr); for (size_t k = 0; k < ls.size(); k++) { D.block(k * nr, k * nr, nr, nr) = P[ls[k]]; Pt += P[ls[k]]; }
    L.compute_tei(); A.compute_tei(g.coin()); if (rs == 1) { L.compute_yukawa(mu); A.compute_yukawa(mu); } if (rs == 2) { L.compute_erfc(mu); A.compute_erfc(mu); }
    Matrix J = A.coulomb(D), Js = L.coulomb(Pt) / (4 * M_PI), K = rs ? A.rs_exchange(D) : A.exchange(D); Cube Ks = rs ? L.rs_exchange(P) : L.exchange(P); double sj = J.cwiseAbs().maxCoeff(), sk = K.cwiseAbs().maxCoeff(), ej = 0, ek = 0; Matrix Jr = Matrix::Zero(N, N), Kr = Jr;
    for (size_t k = 0; k < ls.size(); k++) { Jr.block(k * nr, k * nr, nr, nr) = Js; Kr.block(k * nr, k * nr, nr, nr) = Ks[ls[k]]; } ej = (J - Jr).cwiseAbs().maxCoeff(); ek = (K - Kr).cwiseAbs().maxCoeff();
    double tr = 1e-10 * pmax(P) * nr * ls.size(); c.m.small("full.J", ej, 1e-10L * sj + tr); c.m.small(rs ? "full.K_rs" : "full.K", ek, 1e-10L * sk + tr);
  }
}

// densities and their derivatives at every quadrature point, and at the nucleus
static void profiles(vf::Ctx &c) {
  auto &g = c.rng; bool phys = g.coin(0.6); auto a = phys ? make(g, 6, 12, 8, 40, 3, true) : make(g, 5, 6, 0.5, 30, 3, false, g.coin(0.7)); auto &L = a.lib; Cube P; 
  if (phys) P = shell_densities(g, a, a.Z * g.uniform(0.4, 1.0), true); else for (int l = 0; l <= a.lmax; l++) P.push_back(rndsym(g, a.R.nbf, 1));
  Matrix Pt = total(P), Pl = Matrix::Zero(a.R.nbf, a.R.nbf); for (int l = 0; l <= a.lmax; l++) Pl += l * (l + 1.0) * P[l]; c.m.begin(vf::fmt("profile phys=%d ", phys) + a.desc); c.m.event(phys ? "orbital_densities" : "random_densities");
  if (g.coin()) { L.fill_quadrature_cache(true, true); c.m.event("cached"); }
  Vector r = L.radii(), w = L.quadrature_weights(), n = L.electron_density(Pt), n2 = L.electron_density(Pt, true), dn = L.electron_density_gradient(Pt), ln = L.electron_density_laplacian(Pt), tau = L.kinetic_energy_density(P), scr = L.coulomb_screening(Pt);
  int nr = a.R.nel() * a.nq + 1; if (!c.m.require("prof.length", r.size() == nr && w.size() == nr && n.size() == nr && n2.size() == nr && dn.size() == nr && ln.size() == nr && tau.size() == nr && scr.size() == nr)) return;
  Vector xq = L.get_radial().get_xq(); q eps = 2.2e-16Q; q N = charge(a, Pt, 0, a.R.b.back()), sw = 0;
  c.m.require("prof.nucleus_point", r(0) == 0 && w(0) == 0 && scr(0) == 0);
  q pm = (q)Pt.cwiseAbs().maxCoeff(), plm = (q)Pl.cwiseAbs().maxCoeff(); q cond = powq(std::max(1.0Q, a.nn * a.nn / 4.0Q), a.R.p.per() - 1);
  // enclosed charge accumulates from point to point
  q inner = 0, last = 0, outerall = charge(a, Pt, 0, a.R.b.back(), -1), ir = 0; q scrprev = 0; int stride = std::max(1, nr / 60);
  for (int e = 0; e < a.R.nel(); e++) for (int i = 0; i < a.nq; i++) {
    int k = 1 + e * a.nq + i; q x = (q)xq(i), rr = a.R.mid(e) + a.R.half(e) * x; sw += (q)w(k) * (q)n(k) * (q)r(k) * (q)r(k); c.m.small("prof.radius", (long double)(((q)r(k) - rr) / (eps * (a.R.mid(e) + a.R.half(e)))), 8);
    if (k % stride && i != 0 && i != a.nq - 1) continue;
    // natural sizes of the function and its derivatives in this element
    q h = a.R.half(e), rl = e == 0 ? h : std::min(h, a.R.b[e]), hd = a.R.p.per() > 1 ? std::max((q)1, h) : (q)1; auto sz = [&](int d) { return hd * powq((q)a.nn * a.nn / rl, d) / (e == 0 ? h / a.nn / a.nn : a.R.b[e]); }; int ne = a.R.glo[e].size();
    auto ev = [&](const char *key, double got, q want, q mag) { c.m.small(key, (long double)(((q)got - want) / (eps * (mag + fabsq(want)))), (e ? 1000.0L : 10000.0L) * a.nn * ne * (long double)cond, vf::fmt("e=%d i=%d r=%.10g", e, i, (double)rr)); };
    q m0, f00 = form(a, e, x, Pt, 0, 0, &m0), f01 = form(a, e, x, Pt, 0, 1), f11 = form(a, e, x, Pt, 1, 1), f02 = form(a, e, x, Pt, 0, 2), l00 = form(a, e, x, Pl, 0, 0); q s0 = pm * sz(0), rinv = std::min(1 / rr, (q)1e30);
    ev("prof.density", n(k), f00, s0 * sz(0)); ev("prof.density_r2", n2(k), f00 * rr * rr, s0 * sz(0) * rr * (rr + h)); ev("prof.gradient", dn(k), 2 * f01, s0 * sz(1)); ev("prof.laplacian", ln(k), 2 * (f11 + f02) + 4 * f01 * rinv, s0 * sz(2) + s0 * sz(1) * rinv);
    q l0 = l00 * rinv * rinv; ev("prof.tau", tau(k), (f11 + std::max(l0, (q)0)) / 2, s0 * sz(2) + plm * sz(0) * sz(0) * rinv * rinv);
    // screening Z_s(r) = N(r) + r int_r^inf n r dr
    q seg = charge(a, Pt, last, rr), segm = charge(a, Pt, last, rr, -1); inner += seg; ir += segm; last = rr; q Z = inner + rr * (outerall - ir); c.m.small("prof.screening", (long double)(((q)scr(k) - Z)), (a.nq >= 22 ? 1e-11L : 1e-8L) * (long double)(fabsq(N) + rr * outerall + pm * a.R.b.back() * 1e-2) * a.nn, vf::fmt("r=%g", (double)rr));
    c.m.require("prof.screening_bounds", scr(k) >= -1e-10 * (double)(1 + N) && (q)scr(k) <= N * (1 + 1e-10Q) + 1e-10Q && (q)scr(k) >= scrprev - 1e-9Q * (1 + N), vf::fmt("r=%g s=%g prev=%g N=%g", (double)rr, scr(k), (double)scrprev, (double)N)); scrprev = scr(k);
  }
  if (phys && a.nq >= 26) c.m.small("prof.integrates_to_N", (long double)((sw - N) / N), a.nq >= 34 ? 1e-6 : 1e-3);
  // nucleus
  q nd = 0, ng = 0, sc = 0, sg = 0; auto u = a.R.evalR(0, -1, 0), du = a.R.evalR(0, -1, 1); for (size_t i = 0; i < u.size(); i++) for (size_t j = 0; j < u.size(); j++) { q p = (q)Pt(a.R.glo[0][i], a.R.glo[0][j]); nd += p * u[i] * u[j]; ng += 2 * p * u[i] * du[j]; sc += fabsq(p * u[i] * u[j]); sg += fabsq(2 * p * u[i] * du[j]); } q fl = 1e-6Q * pm / a.R.half(0) / a.R.half(0);
  c.m.small("prof.nuclear_density", (long double)(((q)L.nuclear_density(Pt) * 4 * M_PIq - nd) / (eps * (sc + fl))), 20000 * (long double)cond); c.m.small("prof.nuclear_gradient", (long double)(((q)L.nuclear_density_gradient(Pt) * 4 * M_PIq - ng) / (eps * (sg + fl / a.R.half(0)))), 1e5L * (long double)cond); c.m.close("prof.first_is_nuclear", n(0), 4 * M_PI * L.nuclear_density(Pt), 1e-12 * std::fabs(n(0)));
  // orbitals on the same points
  Matrix C = rnd<double>(g, a.R.nbf, 2).leftCols(std::min(3, a.R.nbf)); Matrix o[3] = {L.orbitals(C), L.orbitals_derivative(C), L.orbitals_second_derivative(C)}; 
  for (int d = 0; d < 3; d++) { c.m.require("prof.orbital_shape", o[d].rows() == nr && o[d].cols() == C.cols()); for (int t = 0; t < 12; t++) { int e = g.integer(0, a.R.nel() - 1), i = g.integer(0, a.nq - 1); auto v = a.R.evalR(e, (q)xq(i), d); q s = 0; for (size_t j = 0; j < v.size(); j++) s += v[j] * (q)C(a.R.glo[e][j], 0); q h = a.R.half(e), rl = e == 0 ? h : std::min(h, a.R.b[e]); q sz = std::max((q)1, a.R.p.per() > 1 ? h : (q)1) * powq((q)a.nn * a.nn / rl, d + 1); c.m.small("prof.orbitals", (long double)(((q)o[d](1 + e * a.nq + i, 0) - s) / (eps * sz * 3)), 4000.0L * a.nn * (long double)cond, vf::fmt("d=%d e=%d", d, e)); } }
  { q s = 0; for (size_t j = 0; j < u.size(); j++) s += u[j] * (q)C(a.R.glo[0][j], 0); c.m.small("prof.orbital_at_nucleus", (long double)(((q)o[0](0, 0) - s) / (eps * (q)a.nn * a.nn * a.nn / a.R.half(0) * 3)), 4000 * (long double)cond * (a.R.p.per() > 1 ? 1 + (long double)a.R.half(0) : 1)); }
}
VF_SECTION("profiles") { for (int i = 0; i < c.n(30, 250); i++) profiles(c); }
VF_SECTION("profiles2") { for (int i = 0; i < c.n(30, 250); i++) profiles(c); }

// characteristic radii of physically shaped densities
VF_SECTION("radii") {
  auto &g = c.rng;
  for (int i = 0; i < c.n(80, 700); i++) {
    auto a = make(g, 8, 12, 12, 40, 2, true); auto &L = a.lib; double Ze = g.uniform(1.0, 6.0); Cube P = shell_densities(g, a, Ze, g.coin()); Matrix Pt = total(P); c.m.begin(vf::fmt("radii Zeff=%.17g ", Ze) + a.desc); q N = charge(a, Pt, 0, a.R.b.back());
    auto dens = [&](double r) { int e = a.R.find((q)r); return (double)form(a, e, a.R.xof(e, (q)r), Pt, 0, 0) / (4 * M_PI); }; auto slope = [&](double r) { int e = a.R.find((q)r); return std::fabs((double)form(a, e, a.R.xof(e, (q)r), Pt, 0, 1)) * 2 / (4 * M_PI); };
    double thr = g.pick({1e-2, 1e-3, 1e-4}), rv = L.vdw_radius(Pt, thr);
    // density crosses the threshold at the returned radius and stays below it further out
    double hmax = 0; for (int e = 0; e < a.R.nel(); e++) hmax = std::max(hmax, (double)a.R.half(e)); bool mono = true; double prev = 1e300; for (double r = 0.3 * rv; r < a.b.back(); r *= 1.02) { double d = dens(r); if (d > prev) mono = false; prev = d; }
    if (rv > 0 && mono) { double rel = 1e-9 * hmax + 1e-12 * rv; c.m.small("radii.vdw_threshold", std::fabs(dens(rv) - thr), (slope(rv) + 1e-4 * thr) * rel * 4 + 1e-9 * thr, vf::fmt("rvdw=%.12g thr=%g n=%g", rv, thr, dens(rv))); c.m.event("vdw"); }
    double eps = g.pick({1e-3, 1e-2, 0.3}); if (N < (q)(1.5 * eps)) continue; double rc = L.electron_count_radius(Pt, eps); q out = charge(a, Pt, (q)rc, a.R.b.back()); c.m.small("radii.count", (long double)fabsq(out - (q)eps), 1e-8L * hmax * (long double)(1 + N) + 1e-9L, vf::fmt("r=%g out=%g", rc, (double)out));
    if (g.coin(0.3)) { double tot = (double)N; c.m.require("radii.count_whole", std::isfinite(L.electron_count_radius(Pt, tot * 1.5)) && L.electron_count_radius(Pt, tot * 1.5) <= a.b[1], "more electrons than there are"); }
    double rm = 0; std::string ex = vf::thrown([&] { rm = L.electron_density_maximum_radius(Pt); }); c.m.require("radii.max_found", ex.empty(), ex); if (!ex.empty()) continue; double best = 0, rb = 0; for (int k = 1; k < 4000; k++) { double r = a.b.back() * std::pow(k / 4000.0, 3), d = dens(r) * r * r; if (d > best) { best = d; rb = r; } } c.m.small("radii.max_local", std::max({0.0, dens(rm * 1.001) * std::pow(rm * 1.001, 2) - dens(rm) * rm * rm, dens(rm * 0.999) * std::pow(rm * 0.999, 2) - dens(rm) * rm * rm}), 1e-9 * best); if (a.nq >= 34) c.m.require("radii.max_density", dens(rm) * rm * rm >= best * (1 - 1e-2), vf::fmt("r=%.10g value=%.12g better at %.10g value=%.12g", rm, dens(rm) * rm * rm, rb, best));
  }
}

// exchange-correlation screening r*v_xc(r), v from the divergence of the functional's flux by finite differences
static void vxc_flux(int id, const double *rho, const double *grad, double *v, double *F) {
  xc_func_type f; xc_func_init(&f, id, XC_POLARIZED); v[0] = v[1] = F[0] = F[1] = 0; double s[3] = {grad[0] * grad[0], grad[0] * grad[1], grad[1] * grad[1]}, vs[3] = {0, 0, 0};
  if (f.info->family == XC_FAMILY_LDA) xc_lda_vxc(&f, 1, rho, v); else { xc_gga_vxc(&f, 1, rho, s, v, vs); F[0] = 2 * vs[0] * grad[0] + vs[1] * grad[1]; F[1] = 2 * vs[2] * grad[1] + vs[1] * grad[0]; } xc_func_end(&f);
}
VF_SECTION("xc_screening") {
  auto &g = c.rng;
  for (int i = 0; i < c.n(40, 300); i++) {
    auto a = make(g, 6, 12, 10, 30, 2, true); double Ze = g.uniform(0.7, 4.0); Cube P = shell_densities(g, a, Ze, g.coin()), Q = shell_densities(g, a, Ze * g.uniform(0.8, 1.2), g.coin()); Matrix Pa = total(P) / 2, Pb = total(Q) / 2; bool same = g.coin(0.3); if (same) Pb = Pa;
    int xf = g.pick({0, 1, 101, 106, 101}), cf = g.pick({0, 7, 12, 130, 131}); if (!xf && !cf) xf = 101; c.m.begin(vf::fmt("xcscreen x=%d c=%d same=%d Zeff=%.17g ", xf, cf, same, Ze) + a.desc); c.m.event(vf::fmt("functional_%d_%d", xf, cf));
    Matrix v = a.lib.xc_screening(Pa, Pb, xf, cf); Vector r = a.lib.radii(), xq = a.lib.get_radial().get_xq(); if (!c.m.require("xcs.shape", v.rows() == r.size() && v.cols() == 2)) continue;
    if (same) { Vector vr = a.lib.xc_screening(Matrix(2 * Pa), xf, cf); double d = 0; for (int k = 0; k < r.size(); k++) if (std::isfinite(v(k, 0))) d = std::max(d, std::fabs(vr(k) - 0.5 * (v(k, 0) + v(k, 1))) / (1 + std::fabs(vr(k)))); c.m.require("xcs.restricted_is_unrestricted", d < 1e-12, vf::fmt("%g", d)); }
    auto at = [&](int e, q x, double *V, double *F) { double n[2] = {(double)form(a, e, x, Pa, 0, 0) / (4 * M_PI), (double)form(a, e, x, Pb, 0, 0) / (4 * M_PI)}, d[2] = {(double)form(a, e, x, Pa, 0, 1) / (2 * M_PI), (double)form(a, e, x, Pb, 0, 1) / (2 * M_PI)}; V[0] = V[1] = F[0] = F[1] = 0; for (int id : {xf, cf}) if (id > 0) { double v1[2], f1[2]; vxc_flux(id, n, d, v1, f1); for (int s = 0; s < 2; s++) { V[s] += v1[s]; F[s] += f1[s]; } } };
    int nt = 0; for (int t = 0; t < 60 && nt < 25; t++) {
      int e = g.integer(0, a.R.nel() - 1), k = g.integer(0, a.nq - 1); q x = (q)xq(k), rr = a.R.mid(e) + a.R.half(e) * x, h = a.R.half(e) * 1e-3Q; if (fabsq(x) > 0.99Q || rr < 0.02Q) continue; double na = (double)form(a, e, x, Pa, 0, 0) / (4 * M_PI), nb = (double)form(a, e, x, Pb, 0, 0) / (4 * M_PI); if (std::min(na, nb) < 1e-5) continue;
      double V0[2], F0[2], V1[2], F1[2], F2[2], F3[2], F4[2]; at(e, x, V0, F0); at(e, a.R.xof(e, rr - 2 * h), V1, F1); at(e, a.R.xof(e, rr - h), V1, F2); at(e, a.R.xof(e, rr + h), V1, F3); at(e, a.R.xof(e, rr + 2 * h), V1, F4); nt++;
      for (int s = 0; s < 2; s++) { double dF = (F1[s] - 8 * F2[s] + 8 * F3[s] - F4[s]) / (12 * (double)h), want = (double)rr * (V0[s] - dF - 2 * F0[s] / (double)rr), mag = (double)rr * (std::fabs(V0[s]) + std::fabs(dF)) + 2 * std::fabs(F0[s]); c.m.small("xcs.potential", std::fabs(v(1 + e * a.nq + k, s) - want), 4e-5 * mag + 4e-6, vf::fmt("x=%d c=%d r=%g n=%g,%g got=%g want=%g", xf, cf, (double)rr, na, nb, v(1 + e * a.nq + k, s), want)); }
    }
    c.m.event("points", nt);
  }
  auto a = make(g, 4, 8, 10, 20, 1, true); Matrix P = total(shell_densities(g, a, 2, false)); c.m.begin("mgga " + a.desc); c.m.require("xcs.mgga_refused", !vf::thrown([&] { a.lib.xc_screening(P, 202, 0); }).empty() && !vf::thrown([&] { a.lib.xc_screening(P, 0, 231); }).empty());
}
VF_MAIN
