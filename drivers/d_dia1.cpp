// P13: diatomic one-electron operators, symmetry blocks, exact two-centre energies, orbital evaluation
#include "refdia.h"
#include <diatomic/quadrature.h>
#include <diatomic/twodquadrature.h>
#include <GaussianNucleus.h>
#include <PointNucleus.h>
#include <Eigen/Eigenvalues>
#include <set>
using namespace helfem;
using ref::q;
typedef std::complex<double> cd;
static const long double TOL = 2000;
static q maxabs(const ref::qmat &M) { q s = 0; for (auto &r : M) for (auto v : r) s = std::max(s, fabsq(v)); return s; }

static void operators(vf::Ctx &c, int big = 0) {
  auto &g = c.rng;
  {
    vfd::Opt o; o.lmax = g.integer(1, 4); o.big = big; if (big) { o.maxang = 3; o.lmax = big == 3 ? 14 : 2; } o.legendre = g.coin(0.3); auto a = vfd::make(g, o); auto &L = *a.lib; int n = a.N(), na = a.nang();
    c.m.begin("operators " + a.desc);
    if (!c.m.require("di.dimensions", (int)L.Nbf() == n && (int)L.Nrad() == a.R.nbf && (int)L.Nang() == na && (int)L.Ndummy() == na * a.R.nbf && (int)L.get_rad_Nel() == a.R.nel() && L.get_nquad() == a.nq)) return;
    c.m.require("di.getters", L.get_Z1() == a.Z1 && L.get_Z2() == a.Z2 && L.get_Rhalf() == a.Rh && L.get_mumax() == a.b.back() && L.get_poly_id() == a.id && L.get_poly_nnodes() == a.nn);
    q Rh = a.Rh, Z1 = a.Z1, Z2 = a.Z2; double B = g.uniform(-3, 3); q B8 = (q)B * (q)B / 8;
    auto S = vfd::volume(a, [](q, q) { return (q)1; }, 2);
    auto K = vfd::kinetic(a);
    // V dV: the volume element cancels both nuclear cusps
    auto V = vfd::volume(a, a, [&](q x) { return a.R.matrix(a.R.B(0), a.R.B(0), [&, x](q mu) { q s = sinhq(mu), ch = coshq(mu); return -Rh * Rh * s * (Z1 * (ch - x) + Z2 * (ch + x)); }, 34); }, 1);
    auto D = vfd::volume(a, [&](q mu, q x) { return Rh * coshq(mu) * x; }, 3);
    auto Q = vfd::volume(a, [&](q mu, q x) { q ch = coshq(mu), z = Rh * ch * x, r2 = Rh * Rh * (ch * ch + x * x - 1); return (3 * z * z - r2) / 2; }, 4);
    auto BZ = vfd::volume(a, [&](q mu, q x) { q s = sinhq(mu); return B8 * Rh * Rh * s * s * (1 - x) * (1 + x); }, 4);
    for (int i = 0; i < na; i++) for (int j = 0; j < na; j++) if (a.m[i] == a.m[j]) for (int p = 0; p < a.nr(i); p++) for (int r = 0; r < a.nr(j); r++) BZ[a.off[i] + p][a.off[j] + r] -= (q)B * a.m[i] / 2 * S[a.off[i] + p][a.off[j] + r];
    Matrix lS = L.overlap(), lK = L.kinetic(), lV = L.nuclear(), lD = L.dipole_z(), lQ = L.quadrupole_zz(), lB = L.Bz_field(B);
    cmp_matrix<double>(c.m, "di.overlap", lS, S, TOL); cmp_matrix<double>(c.m, "di.kinetic", lK, K, 2 * TOL); cmp_matrix<double>(c.m, "di.nuclear", lV, V, TOL);
    q s0 = maxabs(S), ch = coshq((q)a.b.back()) * Rh;
    cmp_matrix<double>(c.m, "di.dipole", lD, D, TOL, s0 * ch / 100); cmp_matrix<double>(c.m, "di.quadrupole", lQ, Q, TOL, s0 * ch * ch / 100); cmp_matrix<double>(c.m, "di.magnetic", lB, BZ, TOL, s0 * fabsq((q)B) / 2);
    c.m.require("di.magnetic_zero", L.Bz_field(0).isZero(0));
    bool ok = true, sym = true;
    for (int i = 0; i < na; i++) for (int j = 0; j < na; j++) {
      auto z = [&](const Matrix &M) { return M.block(a.off[i], a.off[j], a.nr(i), a.nr(j)).isZero(0); }; int dl = std::abs(a.l[i] - a.l[j]);
      if (a.m[i] != a.m[j]) ok = ok && z(lS) && z(lK) && z(lV) && z(lD) && z(lQ) && z(lB);
      if (i != j && a.l[i] != a.l[j]) ok = ok && z(lK);
      if (dl % 2) ok = ok && z(lS) && z(lQ) && z(lB); else ok = ok && z(lD) && (dl == 0 || z(lV));
      if (a.Z1 == a.Z2 && dl % 2) ok = ok && z(lV);
      if (dl > 3) ok = ok && z(lS) && z(lV) && z(lD);
    }
    auto hs = [&](const Matrix &M) { return (M - M.transpose()).cwiseAbs().maxCoeff() <= 100 * 2.3e-16 * M.cwiseAbs().maxCoeff(); };
    sym = hs(lS) && hs(lK) && hs(lV) && hs(lD) && hs(lQ) && hs(lB);
    c.m.require("di.selection_rules", ok); c.m.require("di.hermitian", sym);
    // exchanging the nuclei and mirroring the angular part leaves the molecule unchanged
    vfd::DB e = a; std::swap(e.Z1, e.Z2); e = vfd::finish(e, o.legendre); Matrix xV = e.lib->nuclear(), xS = e.lib->overlap(), xK = e.lib->kinetic(), xD = e.lib->dipole_z(); double w = 0, wd = 0;
    for (int i = 0; i < na; i++) for (int j = 0; j < na; j++) { double s = (a.l[i] + a.l[j]) % 2 ? -1 : 1; auto bk = [&](const Matrix &M) { return Matrix(M.block(a.off[i], a.off[j], a.nr(i), a.nr(j))); }; if (a.nr(i) && a.nr(j)) { w = std::max(w, (bk(xV) - s * bk(lV)).cwiseAbs().maxCoeff()); wd = std::max({wd, (bk(xD) - bk(lD)).cwiseAbs().maxCoeff(), (bk(xS) - bk(lS)).cwiseAbs().maxCoeff(), (bk(xK) - bk(lK)).cwiseAbs().maxCoeff()}); } }
    c.m.small("di.nucleus_exchange", w, 1e-14 * lV.cwiseAbs().maxCoeff() + 1e-300); c.m.small("di.charge_independent", wd, 0);
    // m -> -m: the same matrices, field reversed
    vfd::DB f = a; for (int &v : f.m) v = -v; f = vfd::finish(f, o.legendre); auto cl = [&](const Matrix &A, const Matrix &C) { return (A - C).cwiseAbs().maxCoeff() <= 1e-13 * (A.cwiseAbs().maxCoeff() + C.cwiseAbs().maxCoeff()); };
    c.m.require("di.m_mirror", cl(f.lib->overlap(), lS) && cl(f.lib->kinetic(), lK) && cl(f.lib->nuclear(), lV) && cl(f.lib->dipole_z(), lD) && cl(f.lib->quadrupole_zz(), lQ) && cl(f.lib->Bz_field(-B), lB));
  }
}

VF_SECTION("operators") { for (int it = 0; it < c.n(36, 400); it++) operators(c); }
VF_SECTION("operators_large") { for (int it = 0; it < c.n(9, 90); it++) operators(c, 1 + it % 3); }

// cross-basis overlap, symmetry blocks, boundary maps, index lists
VF_SECTION("structure") {
  auto &g = c.rng;
  for (int it = 0; it < c.n(36, 300); it++) {
    vfd::Opt o; o.lmax = g.integer(1, 4); o.maxang = 9; o.sphere = g.coin(0.3); if (o.sphere) o.lmax = g.integer(0, 2); auto a = vfd::make(g, o); vfd::Opt o2; o2.lmax = g.integer(0, 7); o2.Rh = a.Rh; o2.mumax = g.coin() ? a.b.back() : 0; auto b = vfd::make(g, o2); auto &L = *a.lib; int n = a.N(), na = a.nang();
    c.m.begin("structure " + a.desc + " other " + b.desc);
    q Rh = a.Rh;
    auto X = vfd::volume(a, b, [&](q x) { return vfr::cross(a.R, b.R, 0, 0, [&, x](q mu) { q s = sinhq(mu), ch = coshq(mu); return Rh * Rh * Rh * s * (ch * ch - x * x); }, 40); }, 2);
    { // the axis function of an m != 0 channel is dropped on either side
      int ok = 1; for (int i = 0; i < na; i++) for (int j = 0; j < b.nang(); j++) if (a.m[i] == b.m[j] && (a.m[i] != 0) != (b.m[j] != 0)) ok = 0; c.m.require("ref.axis", ok); }
    q sc = std::max(maxabs(X), 1e-3Q * maxabs(vfd::volume(a, [](q, q) { return (q)1; }, 2)));
    Matrix XY = L.overlap(*b.lib), YX = b.lib->overlap(L);
    cmp_matrix<double>(c.m, "di.cross_overlap", XY, X, TOL, sc);
    if (c.m.require("di.cross_shape", YX.rows() == XY.cols() && YX.cols() == XY.rows())) c.m.small("di.cross_transpose", (XY - YX.transpose()).cwiseAbs().maxCoeff(), 2000 * 2.3e-16 * (double)sc);
    // boundary maps
    std::vector<Eigen::Index> want; for (int i = 0; i < na; i++) for (int p = a.m[i] != 0; p < a.R.nbf; p++) want.push_back((Eigen::Index)i * a.R.nbf + p);
    c.m.require("di.pure_indices", L.pure_indices() == want);
    Matrix P = Matrix::Random(n, n), E = L.expand_boundaries(P); bool in = E.rows() == (int)L.Ndummy() && E.cols() == (int)L.Ndummy() && L.remove_boundaries(E) == P; std::set<Eigen::Index> own(want.begin(), want.end());
    for (int i = 0; in && i < E.rows(); i++) for (int j = 0; j < E.cols(); j++) if (!own.count(i) || !own.count(j)) in = in && E(i, j) == 0;
    c.m.require("di.boundary_maps", in);
    // symmetry blocks
    int mm = 0; for (int m : a.m) mm = std::max(mm, std::abs(m)); c.m.require("di.absm_max", L.absm_max() == mm);
    for (int s = 0; s <= 3; s++) {
      auto idx = L.get_sym_idx(s); auto lab = L.get_sym_labels(s); auto mir = L.get_sym_mirror_idx(s); std::vector<int> seen(n, 0); bool cons = lab.size() == idx.size() && mir.size() == idx.size();
      auto ang = [&](Eigen::Index k) { int i = 0; while (i + 1 < na && a.off[i + 1] <= k) i++; while (a.nr(i) == 0) i++; return i; };
      for (size_t bl = 0; cons && bl < idx.size(); bl++) {
        std::set<std::pair<int, int>> key; for (auto k : idx[bl]) { if (k < 0 || k >= n) { cons = false; break; } seen[k]++; int i = ang(k); key.insert({s == 0 ? 0 : a.m[i], s == 2 ? a.l[i] % 2 : 0}); }
        if (idx[bl].empty()) { if (s < 2) cons = cons && n == 0; continue; }
        cons = cons && key.size() == 1; int m = key.begin()->first; std::string ml = vf::fmt("m=%s%d", m > 0 ? "+" : "", m);
        if (s == 0) cons = cons && lab[bl] == "all"; if (s == 1) cons = cons && lab[bl] == ml; if (s == 2) cons = cons && lab[bl] == ml + (key.begin()->second ? " u" : " g");
        if (s == 3) { cons = cons && m == (int)bl; for (auto k : mir[bl]) { if (k < 0 || k >= n) { cons = false; break; } seen[k]++; cons = cons && a.m[ang(k)] == -m && m > 0; } cons = cons && lab[bl] == vf::fmt("|m|=%d", m); if (o.sphere && m) { cons = cons && mir[bl].size() == idx[bl].size(); for (size_t k = 0; cons && k < mir[bl].size(); k++) { int i = ang(idx[bl][k]), j = ang(mir[bl][k]); cons = a.l[i] == a.l[j] && idx[bl][k] - a.off[i] == mir[bl][k] - a.off[j]; } } } else cons = cons && mir[bl].empty();
      }
      c.m.require("di.sym_blocks", cons, vf::fmt("sym=%d", s)); if (s < 3 || o.sphere) c.m.require("di.sym_partition", std::all_of(seen.begin(), seen.end(), [](int v) { return v == 1; }), vf::fmt("sym=%d", s));
      if (s == 3) continue;   // orthonormalisation of the mirrored blocks is monitored below
      bool chol = g.coin(); Matrix Y = L.Sinvh(chol, s), S = L.overlap(); Eigen::SelfAdjointEigenSolver<Matrix> es(S); double cond = es.eigenvalues()(n - 1) / es.eigenvalues()(0);
      if (c.m.require("di.sinvh_shape", Y.rows() == n && Y.cols() == n)) { c.m.small("di.orthonormal", (Y.transpose() * S * Y - Matrix::Identity(n, n)).cwiseAbs().maxCoeff(), 1e-13 * cond, vf::fmt("sym=%d chol=%d", s, chol));
        int o0 = 0; bool inb = true; for (auto &bl : idx) { std::set<int> mine(bl.begin(), bl.end()); for (size_t k = 0; k < bl.size(); k++) for (int r = 0; r < n; r++) if (!mine.count(r)) inb = inb && Y(r, o0 + k) == 0; o0 += bl.size(); }
        if (s) c.m.require("di.block_columns", inb); }
    }
    c.m.require("di.sym_unknown_refused", !vf::thrown([&] { L.get_sym_idx(4); }).empty() && !vf::thrown([&] { L.get_sym_labels(-1); }).empty());
    for (int k = 0; k < 5; k++) { int m = g.integer(-4, 4); bool odd = g.coin(); std::vector<Eigen::Index> em, eo; for (int i = 0; i < na; i++) for (int p = 0; p < a.nr(i); p++) if (a.m[i] == m) { em.push_back(a.off[i] + p); if (a.l[i] % 2 == (int)odd) eo.push_back(a.off[i] + p); }
      c.m.require("di.m_indices", L.m_indices(m) == em && L.m_indices(m, odd) == eo); }
    for (int e = 0; e < a.R.nel(); e++) {
      std::vector<Eigen::Index> d, dm, r; int m = g.pick(a.m);
      for (int i = 0; i < na; i++) for (int j : a.R.glo[e]) { d.push_back(i * a.R.nbf + j); if (a.m[i] == m) dm.push_back(i * a.R.nbf + j); if (a.m[i] == 0 || j > 0) r.push_back(a.off[i] + j - (a.m[i] != 0)); }
      c.m.require("di.bf_list", L.bf_list_dummy(e) == d && L.bf_list_dummy(e, m) == dm && L.bf_list(e) == r, vf::fmt("el=%d", e));
    }
  }
}

// exact energies of one electron and two bare nuclei: separated equations (Jaffe continued fraction x Legendre matrix)
static double ang_eig(double p2, double RZd, int m, int k) {
  int n = 26; Matrix X = Matrix::Zero(n, n), H; auto cc = [m](double l) { return std::sqrt((l * l - m * m) / ((2 * l - 1) * (2 * l + 1))); };
  for (int i = 0; i + 1 < n; i++) X(i, i + 1) = X(i + 1, i) = cc(m + i + 1);
  H = p2 * X * X + RZd * X; for (int i = 0; i < n; i++) H(i, i) -= (m + i) * (m + i + 1.0);
  Vector e = Eigen::SelfAdjointEigenSolver<Matrix>(H).eigenvalues(); return e(n - 1 - k);
}
static double secular(double E, double R, double Z1, double Z2, int m, int k) {
  double p = std::sqrt(-E * R * R / 2), A = ang_eig(p * p, R * (Z2 - Z1), m, k), s = R * (Z1 + Z2) / (2 * p) - m - 1, r = 0;
  auto an = [&](double n) { return (n + 1) * (n + m + 1); }; auto bn = [&](double n) { return 2 * n * n + (4 * p - 2 * s) * n - A + p * p - 2 * p * s - (m + 1) * (m + s); }; auto cn = [&](double n) { return (n - 1 - s) * (n - 1 - s - m); };
  for (int n = 400; n > 0; n--) r = cn(n) / (bn(n) - an(n) * r);
  return bn(0) - an(0) * r;
}
// lowest root of the k-th angular channel
static bool ground(double R, double Z1, double Z2, int m, int k, double &E) {
  double lo = -(Z1 + Z2) * (Z1 + Z2) / 2 * 1.05, hi = -0.02 * (Z1 + Z2) * (Z1 + Z2), pe = lo, pf = secular(lo, R, Z1, Z2, m, k); int N = 500;
  for (int i = 1; i <= N; i++) {
    double e = lo + (hi - lo) * i / N, f = secular(e, R, Z1, Z2, m, k);
    if (f * pf < 0 && std::abs(f) < 1e4 && std::abs(pf) < 1e4) {
      double a = pe, b = e, fa = pf; for (int t = 0; t < 200 && b - a > 1e-15 * std::abs(a); t++) { double mid = (a + b) / 2, fm = secular(mid, R, Z1, Z2, m, k); if (fa * fm <= 0) b = mid; else a = mid, fa = fm; }
      E = (a + b) / 2; return std::abs(secular(E, R, Z1, Z2, m, k)) < 1e-6;
    }
    pe = e; pf = f;
  }
  return false;
}
VF_SECTION("exact_energies") {
  auto &g = c.rng;
  { double E; c.m.begin("H2+ R=2 literature"); c.m.require("ref.h2p", ground(2, 1, 1, 0, 0, E) && std::abs(E + 1.1026342144949464) < 1e-12); }
  for (int it = 0; it < c.n(14, 120); it++) {
    int Z1 = g.integer(1, 5), Z2 = g.coin(0.4) ? Z1 : g.integer(1, 5), m = g.integer(0, 2); double R = g.uniform(0.6, 4.0) / std::sqrt((double)std::max(Z1, Z2)); int kmax = 1;
    vfd::DB a; a.id = 4; a.nn = 12 + g.integer(0, 2); a.nq = 60; a.Z1 = Z1; a.Z2 = Z2; a.Rh = R / 2; double mumax = std::acosh(std::max(2.0, 60.0 * (m + 1) / (Z1 + Z2) / a.Rh)); int nel = 4;
    for (int i = 0; i <= nel; i++) a.b.push_back(mumax * i / nel);
    for (int l = m; l <= m + 11; l++) { a.l.push_back(l); a.m.push_back(g.coin() || m == 0 ? m : m); }
    int sg = g.coin() ? 1 : -1; for (int &v : a.m) v *= sg;
    a = vfd::finish(a, false); c.m.begin("exact " + a.desc); auto &L = *a.lib;
    Matrix X = L.Sinvh(true, 1), H = X.transpose() * (L.kinetic() + L.nuclear()) * X; Vector e = Eigen::SelfAdjointEigenSolver<Matrix>((H + H.transpose()) / 2).eigenvalues();
    for (int k = 0; k <= kmax; k++) { double E; if (!ground(R, Z1, Z2, m, k, E) || E > -0.1 * std::max(Z1, Z2) * std::max(Z1, Z2)) { c.m.event("reference_state_skipped"); continue; }
      double best = 1e300; for (int i = 0; i < 6 && i < e.size(); i++) if (std::abs(e(i) - E) < std::abs(best - E)) best = e(i);
      if (k == 0) c.m.close("di.exact_ground", e(0), E, 2e-9 * std::abs(E), vf::fmt("m=%d", m)); else c.m.close("di.exact_excited", best, E, 2e-8 * std::abs(E), vf::fmt("m=%d", m)); }
    for (int s : {0, 2}) { Matrix Y = L.Sinvh(s == 0, s), G = Y.transpose() * (L.kinetic() + L.nuclear()) * Y; Vector f = Eigen::SelfAdjointEigenSolver<Matrix>((G + G.transpose()) / 2).eigenvalues(); c.m.close("di.energy_independent_of_blocks", f(0), e(0), 1e-9 * std::abs(e(0)), vf::fmt("sym=%d", s)); }
  }
}

// orbital values, derivatives and Laplacians at the grid points
VF_SECTION("evaluation") {
  auto &g = c.rng; double ep = 2.3e-16;
  for (int it = 0; it < c.n(100, 1000); it++) {
    vfd::Opt o; o.lmax = g.integer(1, 6); auto a = vfd::make(g, o); auto &R = a.R; auto &L = *a.lib; int na = a.nang();
    double cth = g.coin(0.15) ? g.pick({1.0, -1.0}) : g.coin(0.2) ? g.pick({1.0, -1.0}) * (1 - g.loguniform(1e-12, 1e-2)) : g.uniform(-1, 1), phi = g.uniform(-4, 7);
    c.m.begin(vf::fmt("eval cth=%.17g phi=%.17g ", cth, phi) + a.desc);
    q x = cth; double sn = (double)sqrtq((1 - x) * (1 + x)), pole = sn > 1e-9 ? ep * 60 / sn : 0;
    std::vector<double> Y, dY; for (int k = 0; k < na; k++) { q t, d; vfd::theta(a.l[k], a.m[k], x, t, d); q n0 = sqrtq(2 * M_PIq); Y.push_back((double)(t / n0)); dY.push_back((double)(d / n0)); }
    Vector ch; (void)ch;
    for (int e = 0; e < R.nel(); e++) {
      Vector r = L.get_r(e), w = L.get_wrad(e); int np = r.size(), nb = R.glo[e].size(); double h = (double)R.half(e);
      if (!c.m.require("di.points", np == a.nq && w.size() == np)) continue;
      c.m.close("di.weight_sum", w.sum(), a.b[e + 1] - a.b[e], 1e-4 * (a.b[e + 1] - a.b[e]));
      bool inside = true; for (int p = 0; p < np; p++) inside = inside && r(p) >= a.b[e] - 1e-12 && r(p) <= a.b[e + 1] + 1e-12; c.m.require("di.points_inside", inside);
      Matrix f0 = L.get_rad_bf(e), f1 = L.get_rad_df(e), f2 = L.get_rad_d2f(e);
      if (!c.m.require("di.rad_shape", f0.rows() == np && f0.cols() == nb && f1.rows() == np && f2.cols() == nb)) continue;
      double sf = 0, s1 = 0, s2 = 0, w0 = 0, w1 = 0, w2 = 0, wc = 0, wdc = 0, wm = 0, wdm = 0, wl = 0, sl = 0, sd = 0; auto up = [](double &m, double v) { if (!(v <= m)) m = v; };
      for (int p = 0; p < np; p++) {
        q xx = R.xof(e, (q)r(p)); auto b0 = R.eval(e, xx, 0), b1 = R.eval(e, xx, 1), b2 = R.eval(e, xx, 2);
        for (int j = 0; j < nb; j++) { up(w0, std::abs(f0(p, j) - (double)b0[j])); up(w1, std::abs(f1(p, j) - (double)b1[j])); up(w2, std::abs(f2(p, j) - (double)b2[j])); up(sf, std::abs((double)b0[j])); up(s1, std::abs((double)b1[j])); up(s2, std::abs((double)b2[j])); }
        Eigen::MatrixXcd cf = L.eval_bf(e, p, cth, phi), dr, dt, dp; L.eval_df(e, p, cth, phi, dr, dt, dp);
        if (!c.m.require("di.eval_shape", cf.rows() == 1 && cf.cols() == nb * na && dr.cols() == nb * na && dt.cols() == nb * na && dp.cols() == nb * na)) break;
        for (int k = 0; k < na; k++) for (int j = 0; j < nb; j++) { cd ph = std::exp(cd(0, a.m[k] * phi)); double v0 = (double)b0[j], v1 = (double)b1[j]; int col = k * nb + j;
          up(wc, std::abs(cf(0, col) - v0 * Y[k] * ph)); up(wdc, std::abs(dr(0, col) - v1 * Y[k] * ph) * h); up(wdc, std::abs(dt(0, col) - v0 * dY[k] * ph)); up(wdc, std::abs(dp(0, col) - cd(0, a.m[k]) * v0 * Y[k] * ph)); up(sd, std::abs(v1) * h + std::abs(v0) * (a.l[k] + 1)); }
        int mv = g.pick(a.m); std::vector<int> fl; for (int k = 0; k < na; k++) if (a.m[k] == mv) fl.push_back(k);
        Matrix rf = L.eval_bf(e, p, cth, mv), rf2 = L.eval_bf(e, p, cth, mv, f0), rd, rt, rl; L.eval_df(e, p, cth, mv, rd, rt); L.eval_lf(e, p, cth, mv, rl); int nc = (int)fl.size() * nb;
        if (!c.m.require("di.m_eval_shape", rf.cols() == nc && rd.cols() == nc && rt.cols() == nc && rl.cols() == nc && rf == rf2)) break;
        q mu = r(p), sh = sinhq(mu), chq = coshq(mu), h2 = (q)a.Rh * (q)a.Rh * (chq * chq - x * x);
        for (size_t k = 0; k < fl.size(); k++) for (int j = 0; j < nb; j++) { int an = fl[k], col = (int)k * nb + j; double v0 = (double)b0[j], v1 = (double)b1[j]; int l = a.l[an], m = mv;
          up(wm, std::abs(rf(0, col) - v0 * Y[an])); up(wdm, std::abs(rd(0, col) - v1 * Y[an]) * h); up(wdm, std::abs(rt(0, col) - v0 * dY[an]));
          q lap = (b2[j] + chq / sh * b1[j] - (l * (l + 1) + m * m / sh / sh) * b0[j]) / h2; q s = (fabsq(b2[j]) + chq / sh * fabsq(b1[j]) + (l * (l + 1) + m * m / sh / sh) * fabsq(b0[j])) / h2;
          // per point: the Laplacian spans many orders of magnitude near the nuclei
          double rel = (double)(fabsq((q)rl(0, col) - lap * Y[an]) / ((s + (1 + chq / sh) / (h * h) / h2 + (l * (l + 1) + m * m / sh / sh) / h2))); up(wl, rel); sl = 1; }
      }
      double amp = 20.0 * a.nn * a.nn * (1 + a.b[e] / h) * (a.id == 8 ? 30 : a.id == 5 ? 8 : 2), sc = sf > 0 ? sf : 1;
      c.m.small("di.rad_value", w0 / sc, amp * ep, vf::fmt("el=%d", e)); c.m.small("di.rad_d1", w1 / (s1 > 0 ? s1 : 1), amp * 10 * ep, vf::fmt("el=%d", e)); c.m.small("di.rad_d2", w2 / (s2 > 0 ? s2 : 1), amp * 40 * ep, vf::fmt("el=%d", e));
      c.m.small("di.value", wc / sc, amp * ep + pole, vf::fmt("el=%d", e)); c.m.small("di.derivatives", wdc / (sd > 0 ? sd : 1), amp * 10 * ep + pole, vf::fmt("el=%d", e));
      c.m.small("di.m_value", wm / sc, amp * ep + pole, vf::fmt("el=%d", e)); c.m.small("di.m_derivatives", wdm / (sd > 0 ? sd : 1), amp * 10 * ep + pole, vf::fmt("el=%d", e));
      if (sl > 0) c.m.small("di.m_laplacian", wl, amp * 100 * ep * a.nn * a.nn + pole, vf::fmt("el=%d", e));
    }
    // values at an arbitrary point
    double mu = g.coin(0.2) ? g.pick(a.b) : g.uniform(0, a.b.back()); Eigen::VectorXcd v = L.eval_bf(mu, cth, phi), rv = Eigen::VectorXcd::Zero(a.N()); int e = R.find((q)mu); auto b0 = R.eval(e, R.xof(e, (q)mu), 0); double s0 = 1e-300;
    for (int k = 0; k < na; k++) for (size_t j = 0; j < b0.size(); j++) { int gl = R.glo[e][j] - (a.m[k] != 0); if (gl >= 0) { rv(a.off[k] + gl) = (double)b0[j] * Y[k] * std::exp(cd(0, a.m[k] * phi)); s0 = std::max(s0, std::abs((double)b0[j])); } }
    if (c.m.require("di.point_shape", v.size() == a.N())) c.m.small("di.point_value", (v - rv).cwiseAbs().maxCoeff() / s0, 20.0 * a.nn * a.nn * (1 + a.b[e] / (double)R.half(e)) * 30 * ep + pole, vf::fmt("mu=%.17g", mu));
    c.m.require("di.outside_refused", !vf::thrown([&] { L.eval_bf(a.b.back() * 1.01 + 0.1, cth, phi); }).empty());
  }
}

// two-dimensional quadrature of a model potential at either nucleus
VF_SECTION("model_potential") {
  auto &g = c.rng;
  for (int it = 0; it < c.n(12, 100); it++) {
    vfd::Opt o; o.lmax = 3; o.fixnq = 80; o.maxel = 3; o.muhi = 3; o.ids = {4, 5}; auto a = vfd::make(g, o); auto &L = *a.lib; int lang = 60;
    diatomic::twodquad::TwoDGrid dummy; diatomic::twodquad::TwoDGrid grid(&L, lang); c.m.begin("model potential " + a.desc);
    modelpotential::PointNucleus p1(a.Z1), p2(a.Z2), z0(0); Matrix V = L.nuclear(), W = grid.model_potential(&p1, &p2), W1 = grid.model_potential(&p1, &z0), W2 = grid.model_potential(&z0, &p2); double s = std::max(1e-12, V.cwiseAbs().maxCoeff());
    c.m.small("di.grid_nuclear", (W - V).cwiseAbs().maxCoeff() / s, 1e-8); c.m.small("di.grid_additive", (W - W1 - W2).cwiseAbs().maxCoeff() / s, 1e-13);
    // a smooth charge at the left nucleus
    double sg = g.uniform(0.4, 1.5) * a.Rh; modelpotential::GaussianNucleus gn(1, sg); q al = sqrtq(1.5Q) / (q)sg, Rh = a.Rh;
    bool left = g.coin(); auto U = vfd::volume(a, [&](q mu, q x) { q r = Rh * (coshq(mu) + (left ? x : -x)); return r < 1e-20Q ? (q)0 : -erfq(al * r) / r; }, 60, 34);
    Matrix M = left ? grid.model_potential(&gn, &z0) : grid.model_potential(&z0, &gn);
    q sc = maxabs(U); cmp_matrix<double>(c.m, "di.grid_gaussian", M, U, 1e-7L, sc, 1, vf::fmt("left=%d sigma=%g", left, sg));
  }
}
VF_MAIN
