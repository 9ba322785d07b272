// P10: atomic one-electron operators, symmetry blocks, spectra, orbital evaluation
#include "refatom.h"
#include <GaussianNucleus.h>
#include <RegularizedNucleus.h>
#include <SphericalNucleus.h>
#include <angular.h>
#include <chebyshev.h>
#include <Eigen/Eigenvalues>
#include <set>
using namespace helfem;
using ref::q; using vfa::ang;
static const long double TOL = 1500;

template <class T> void operators(vf::Ctx &c, bool offc, int big = 0) {
  auto &g = c.rng; vfa::Opt o; o.offc = offc; o.lmax = g.integer(1, 5); if (sizeof(T) > 8) { o.maxel = 3; o.maxang = 6; }
  o.big = big; if (big) { o.maxang = 3; o.lmax = big == 3 ? 14 : 2; }
  auto a = vfa::make<T>(g, o); auto &R = a.R; auto &L = a.lib; int n = a.nang();
  c.m.begin(vf::fmt("operators offc=%d ", offc) + a.desc);
  if (!c.m.require("at.dimensions", (int)L.Nbf() == a.N() && (int)L.Nrad() == R.nbf && (int)L.Nang() == n && (int)L.Ndummy() == a.N() && (int)L.get_rad_Nel() == R.nel())) return;
  auto gb = vfr::geo(R); int Q = 40; auto R0 = R.R(0);
  auto mom = [&](int k) { return R.matrix(R0, R0, [k](q r) { return powq(r, k + 2); }, Q, gb); };
  auto S0 = R.matrix(R.B(0), R.B(0), nullptr, Q), K0 = R.matrix(R.B(1), R.B(1), nullptr, Q), L0 = R.matrix(R0, R0, nullptr, Q, gb), V0 = mom(-1), M1 = mom(1), M2 = mom(2);
  T B = (T)g.uniform(-3, 3);
  auto S = a.zero(), K = S, V = S, D = S, QQ = S, BZ = S;
  for (int i = 0; i < n; i++) {
    int l = a.l[i];
    a.put(S, i, i, S0, 1); a.put(K, i, i, K0, 0.5Q); a.put(K, i, i, L0, l * (l + 1) / 2.0Q); a.put(V, i, i, V0, -a.Z);
    a.put(BZ, i, i, S0, -(q)B * a.m[i] / 2);
    for (int j = 0; j < n; j++) {
      a.put(D, i, j, M1, ang(a.l[i], a.m[i], a.l[j], a.m[j], 1, [](q x) { return x; }));
      a.put(QQ, i, j, M2, ang(a.l[i], a.m[i], a.l[j], a.m[j], 2, [](q x) { return (3 * x * x - 1) / 2; }));
      a.put(BZ, i, j, M2, (q)B * (q)B / 8 * ang(a.l[i], a.m[i], a.l[j], a.m[j], 2, [](q x) { return 1 - x * x; }));
    }
  }
  if (offc) {
    int Lm = 0; for (int l : a.l) Lm = std::max(Lm, 2 * l);
    q Rh = (q)a.Rh;
    for (int LL = 0; LL <= Lm; LL++) {
      auto W = R.matrix(R.B(0), R.B(0), [=](q r) { q lo = r < Rh ? r : Rh, hi = r < Rh ? Rh : r; return powq(lo / hi, LL) / hi; }, Q, gb);
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
        q f = ang(a.l[i], a.m[i], a.l[j], a.m[j], LL, [LL](q x) { return ref::legendreP(LL, x); });
        a.put(V, i, j, W, -f * (a.Zr + (LL % 2 ? -1 : 1) * a.Zl));
      }
    }
  }
  cmp_matrix<T>(c.m, "at.overlap", L.overlap(), S, TOL); cmp_matrix<T>(c.m, "at.kinetic", L.kinetic(), K, TOL);
  cmp_matrix<T>(c.m, offc ? "at.nuclear_offcentre" : "at.nuclear", L.nuclear(), V, TOL);
  auto mx = [](const ref::qmat &M) { q s = 0; for (auto &r : M) for (auto v : r) s = std::max(s, fabsq(v)); return s; };
  cmp_matrix<T>(c.m, "at.dipole", L.dipole_z(), D, TOL, mx(M1) * 1e-2Q); cmp_matrix<T>(c.m, "at.quadrupole", L.quadrupole_zz(), QQ, TOL, mx(M2) * 1e-2Q);
  cmp_matrix<T>(c.m, "at.magnetic", L.Bz_field(B), BZ, TOL);
  c.m.require("at.magnetic_zero", L.Bz_field(T(0)).isZero(T(0)));
  c.m.require("at.confinement_off", L.confinement(3, T(1), 0, T(1), T(0)).isZero(T(0)));
  // selection rules: blocks the operators cannot couple are exactly zero
  Mat<T> lV = L.nuclear(), lD = L.dipole_z(), lQ = L.quadrupole_zz(), lB = L.Bz_field(B); int nr = R.nbf; bool ok = true, sym = true;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
    auto z = [&](const Mat<T> &M) { return M.block(i * nr, j * nr, nr, nr).isZero(T(0)); };
    int dl = std::abs(a.l[i] - a.l[j]);
    if (a.m[i] != a.m[j]) ok = ok && z(lV) && z(lD) && z(lQ) && z(lB);
    if (dl != 1) ok = ok && z(lD);
    if (dl % 2 || dl > 2) ok = ok && z(lQ) && z(lB);
  }
  auto hs = [&](const Mat<T> &M) { T s = M.cwiseAbs().maxCoeff(); return (M - M.transpose()).cwiseAbs().maxCoeff() <= T(100) * std::numeric_limits<T>::epsilon() * s; };
  sym = hs(L.overlap()) && hs(L.kinetic()) && hs(lV) && hs(lD) && hs(lQ) && hs(lB);
  c.m.require("at.selection_rules", ok); c.m.require("at.hermitian", sym);
  // confinement and model potentials are diagonal in the angular part
  { int N = g.integer(1, 4); T r0 = (T)g.loguniform(0.5, 5), sh = (T)a.b[g.integer(0, (int)a.b.size() - 2)]; T V = (T)g.uniform(0.1, 4); int ic = g.pick({1, 3});
    auto C0 = R.matrix(R.B(0), R.B(0), [=](q r) { return r < (q)sh ? (q)0 : ic == 1 ? powq((r - (q)sh) / (q)r0, N) : (q)V; }, Q, {});
    auto C = a.zero(); for (int i = 0; i < n; i++) a.put(C, i, i, C0, 1);
    cmp_matrix<T>(c.m, "at.confinement", L.confinement(N, r0, ic, V, sh), C, TOL, 0, 0, vf::fmt("N=%d r0=%g ic=%d V=%g shift=%g", N, (double)r0, ic, (double)V, (double)sh)); }
  { modelpotential::GaussianNucleusT<T> p(a.Z + 1, (T)(0.1 * a.b[1])); auto C0 = Mat<T>(helfem::Mat<T>::Zero(nr, nr)); Mat<T> M = L.model_potential(&p); bool same = true;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) same = same && (i == j ? (M.block(i * nr, i * nr, nr, nr) - M.block(0, 0, nr, nr)).isZero(T(0)) : M.block(i * nr, j * nr, nr, nr).isZero(T(0)));
    c.m.require("at.model_potential_blocks", same); }
}
VF_SECTION("operators_double") { for (int i = 0; i < c.n(40, 400); i++) operators<double>(c, i % 2); }
// sizes of production runs: many elements, elements of order 10 to 16, high angular momentum
VF_SECTION("operators_large") { for (int i = 0; i < c.n(12, 90); i++) operators<double>(c, i % 2, 1 + i % 3); }
VF_SECTION_WIDE("operators_large_wide") { for (int i = 0; i < c.n(3, 24); i++) operators<long double>(c, i % 2, 1 + i % 3); for (int i = 0; i < c.n(1, 6); i++) operators<_Float128>(c, i % 2, 2); }
VF_SECTION_WIDE("operators_long") { for (int i = 0; i < c.n(16, 160); i++) operators<long double>(c, i % 2); }
VF_SECTION_WIDE("operators_quad") { for (int i = 0; i < c.n(8, 60); i++) operators<_Float128>(c, i % 2); }

// finite nuclei: the Hamiltonian must use the requested charge distribution
VF_SECTION("finite_nucleus") {
  auto &g = c.rng;
  for (int i = 0; i < c.n(40, 300); i++) {
    vfa::Opt o; o.nucmodel = g.pick({(int)modelpotential::GAUSSIAN_NUCLEUS, (int)modelpotential::SPHERICAL_NUCLEUS, (int)modelpotential::HOLLOW_NUCLEUS, (int)modelpotential::REGULARIZED_NUCLEUS}); o.Rrms = o.nucmodel == modelpotential::REGULARIZED_NUCLEUS ? g.pick({1.5, 2.0, 3.0, 4.0}) : g.loguniform(1e-3, 0.3); o.Z = g.integer(1, 60); o.lmax = 2;
    auto a = vfa::make<double>(g, o); auto &R = a.R; q Z = a.Z;
    c.m.begin(vf::fmt("nucleus model=%d Rrms=%.6g ", o.nucmodel, o.Rrms) + a.desc);
    double rr = o.Rrms; std::vector<q> brk = vfr::geo(R, 0); std::function<q(q)> v;
    if (o.nucmodel == modelpotential::GAUSSIAN_NUCLEUS) { q al = sqrtq(1.5Q) / (q)rr; v = [=](q r) { return -Z * erfq(al * r) / r; }; for (double t = rr / 2; t < a.b.back(); t *= 1.4) brk.push_back(t); }
    else if (o.nucmodel == modelpotential::SPHERICAL_NUCLEUS) { q R0 = sqrtq(5 / 3.0Q) * (q)rr; brk.push_back(R0); v = [=](q r) { return r < R0 ? -Z / (2 * R0) * (3 - r * r / R0 / R0) : -Z / r; }; }
    else if (o.nucmodel == modelpotential::REGULARIZED_NUCLEUS) { auto P = std::make_shared<modelpotential::RegularizedNucleusT<_Float128>>(o.Z, (_Float128)rr); v = [P](q r) { return (q)P->V((_Float128)r); }; rr = 0.5 / (rr * o.Z); for (double t = rr / 2; t < a.b.back(); t *= 1.4) brk.push_back(t); }
    else { q R0 = rr; brk.push_back(R0); v = [=](q r) { return r < R0 ? -Z / R0 : -Z / r; }; }
    for (double t = rr * 1.3; t < a.b.back(); t *= 1.6) brk.push_back(t);
    auto V0 = R.matrix(R.B(0), R.B(0), v, 40, brk); auto V = a.zero(); for (int k = 0; k < a.nang(); k++) a.put(V, k, k, V0, 1);
    cmp_matrix<double>(c.m, "at.finite_nucleus", a.lib.nuclear(), V, 3 * TOL);
    c.m.require("at.nucleus_getters", a.lib.get_nuclear_model() == o.nucmodel && a.lib.get_nuclear_size() == o.Rrms && a.lib.get_Z() == a.Z);
  }
}

// symmetry blocks, labels, orthonormalisation, cross-basis overlap
template <class T> void symmetry(vf::Ctx &c) {
  auto &g = c.rng; vfa::Opt o; o.lmax = 4; o.maxang = 12; auto a = vfa::make<T>(g, o); auto &L = a.lib; int n = a.N(), nr = a.R.nbf;
  c.m.begin("symmetry " + a.desc);
  for (int s = 0; s <= 2; s++) {
    auto idx = L.get_sym_idx(s); auto lab = L.get_sym_labels(s); std::vector<int> seen(n, 0); bool cons = true;
    for (size_t b = 0; b < idx.size(); b++) { std::set<std::pair<int, int>> key; for (auto k : idx[b]) { if (k < 0 || k >= n) { cons = false; continue; } seen[k]++; int an = (int)k / nr; key.insert(s == 0 ? std::make_pair(0, 0) : s == 1 ? std::make_pair(0, a.m[an]) : std::make_pair(a.l[an], a.m[an])); }
      cons = cons && key.size() == 1;
      if (b < lab.size() && key.size() == 1) { int l = key.begin()->first, m = key.begin()->second; std::string ms = vf::fmt("m=%s%d", m > 0 ? "+" : "", m); cons = cons && lab[b] == (s == 0 ? std::string("all") : s == 1 ? ms : vf::fmt("l=%d ", l) + ms); } }
    c.m.require("sym.labels_match", lab.size() == idx.size() && cons);
    c.m.require("sym.partition", std::all_of(seen.begin(), seen.end(), [](int v) { return v == 1; }), vf::fmt("sym=%d", s));
    bool chol = g.coin(); Mat<T> X = L.Sinvh(chol, s), S = L.overlap();
    Mat<T> E = X.transpose() * S * X; long double ep = std::numeric_limits<T>::epsilon();
    Eigen::SelfAdjointEigenSolver<Matrix> es(S.template cast<double>()); double cond = es.eigenvalues()(n - 1) / es.eigenvalues()(0);
    c.m.small("sym.orthonormal", (long double)(E - Mat<T>::Identity(n, n)).cwiseAbs().maxCoeff(), 500 * ep * cond, vf::fmt("sym=%d chol=%d", s, chol));
    // columns of a block stay inside the block
    int off = 0; bool in = true; for (auto &b : idx) { std::set<int> own(b.begin(), b.end()); for (size_t k = 0; k < b.size(); k++) for (int r = 0; r < n; r++) if (!own.count(r)) in = in && X(r, off + k) == T(0); off += b.size(); }
    if (s) c.m.require("sym.block_columns", in);
  }
  c.m.require("sym.unknown_refused", !vf::thrown([&] { L.get_sym_idx(3); }).empty() && !vf::thrown([&] { L.get_sym_labels(-1); }).empty());
  // lookups by quantum number
  for (int k = 0; k < 6; k++) {
    int l = g.integer(0, 5), m = g.integer(-5, 5); std::vector<Eigen::Index> em, elm;
    for (int i = 0; i < n; i++) { if (a.m[i / nr] == m) em.push_back(i); if (a.m[i / nr] == m && a.l[i / nr] == l) elm.push_back(i); }
    c.m.require("sym.m_indices", L.m_indices(m) == em); c.m.require("sym.lm_indices", L.lm_indices(l, m) == elm);
  }
  // element lists cover every function and agree with the radial ranges
  std::set<Eigen::Index> all;
  for (int e = 0; e < a.R.nel(); e++) { auto bl = L.bf_list(e); std::vector<Eigen::Index> want; for (int k = 0; k < a.nang(); k++) for (int j : a.R.glo[e]) want.push_back(k * nr + j); c.m.require("sym.bf_list", bl == want); all.insert(bl.begin(), bl.end());
    auto rg = L.radial_element_range(e); if (!a.R.glo[e].empty()) c.m.require("sym.radial_range", (int)rg.first == a.R.glo[e].front() && (int)rg.second == a.R.glo[e].back()); }
  c.m.require("sym.bf_list_covers", (int)all.size() == n);
  // overlap between two bases
  vfa::Opt o2 = o; auto b = vfa::make<T>(g, o2); auto X0 = vfr::cross(a.R, b.R, 0, 0, nullptr, 40);
  ref::qmat X(n, std::vector<q>(b.N(), 0));
  for (int i = 0; i < a.nang(); i++) for (int j = 0; j < b.nang(); j++) if (a.l[i] == b.l[j] && a.m[i] == b.m[j]) for (int p = 0; p < nr; p++) for (int r = 0; r < b.R.nbf; r++) X[i * nr + p][j * b.R.nbf + r] = X0[p][r];
  cmp_matrix<T>(c.m, "sym.cross_overlap", L.overlap(b.lib), X, TOL, 1e-3Q, 0, "rh " + b.desc);
  Mat<T> xy = L.overlap(b.lib), yx = b.lib.overlap(L);
  c.m.small("sym.cross_transpose", (long double)(xy - yx.transpose()).cwiseAbs().maxCoeff(), 2000 * (long double)std::numeric_limits<T>::epsilon() * std::max<long double>(1, (long double)xy.cwiseAbs().maxCoeff()));
}
VF_SECTION("symmetry") { for (int i = 0; i < c.n(30, 300); i++) symmetry<double>(c); for (int i = 0; i < c.n(8, 60); i++) symmetry<long double>(c); for (int i = 0; i < c.n(3, 20); i++) symmetry<_Float128>(c); }

// known spectra in rich bases
static Vector eig(const atomic::basis::TwoDBasis &L, const Matrix &H) { Matrix X = L.Sinvh(true, 0), F = X.transpose() * H * X; return Eigen::SelfAdjointEigenSolver<Matrix>((F + F.transpose()) / 2).eigenvalues(); }
static atomic::basis::TwoDBasis rich(vf::Rng &g, int Z, double rmax, std::vector<int> l, std::vector<int> m, int nel = 6, int nn = 10, int Zl = 0, int Zr = 0, double Rh = 0) {
  std::vector<double> b{0}; for (int i = 1; i <= nel; i++) b.push_back(rmax * std::expm1(2.0 * i / nel) / std::expm1(2.0));
  if (Rh > 0) { b.push_back(Rh); std::sort(b.begin(), b.end()); }
  Eigen::VectorXi lv(l.size()), mv(l.size()); for (size_t i = 0; i < l.size(); i++) { lv(i) = l[i]; mv(i) = m[i]; }
  auto p = make_poly<double>(4, nn + g.integer(0, 3));
  return atomic::basis::TwoDBasis(Z, modelpotential::POINT_NUCLEUS, 0.0, p, false, 5 * p->get_nnodes(), to_vec<double>(b), lv, mv, Zl, Zr, Rh);
}
VF_SECTION("spectra") {
  auto &g = c.rng;
  for (int i = 0; i < c.n(24, 200); i++) {
    int kind = i % 4, l = g.integer(0, 4), m = g.integer(-l, l);
    if (kind == 0) { int Z = g.integer(1, 30); double rm = 60.0 / Z; auto L = rich(g, Z, rm, {l}, {m}, 8, 12); c.m.begin(vf::fmt("hydrogenic Z=%d l=%d m=%d", Z, l, m));
      Vector E = eig(L, L.kinetic() + L.nuclear()); for (int k = 0; k < 2 && l + k + 1 <= 4; k++) { double nq = l + 1 + k; c.m.close("spec.hydrogenic", E(k), -Z * Z / (2 * nq * nq), (nq <= 2 ? 1e-11 : nq == 3 ? 1e-9 : 3e-6) * Z * Z, vf::fmt("n=%g", nq)); } }
    if (kind == 1) { double R0 = g.uniform(1, 8); auto L = rich(g, 0, R0, {l}, {m}); c.m.begin(vf::fmt("cavity R=%.8g l=%d", R0, l));
      static const double z[5][2] = {{3.14159265358979323846, 6.28318530717958647693}, {4.49340945790906417531, 7.72525183693770716419}, {5.76345919689454979140, 9.09501133047635525151}, {6.98793200050051995905, 10.41711854737936486767}, {8.18256145257124305573, 11.70490715457036700391}};
      Vector E = eig(L, L.kinetic()); for (int k = 0; k < 2; k++) c.m.close("spec.cavity", E(k), z[l][k] * z[l][k] / (2 * R0 * R0), 1e-9 * z[l][k] * z[l][k] / (R0 * R0), vf::fmt("k=%d", k)); }
    if (kind == 2) { double w = g.uniform(0.3, 3), r0 = std::sqrt(2.0) / w; auto L = rich(g, 0, 11 / std::sqrt(w), {l}, {m}, 8, 12); c.m.begin(vf::fmt("oscillator w=%.8g l=%d", w, l));
      Vector E = eig(L, L.kinetic() + L.confinement(2, r0, 1, 1.0, 0.0)); for (int k = 0; k < 3; k++) c.m.close("spec.oscillator", E(k), w * (2 * k + l + 1.5), 1e-8 * w, vf::fmt("k=%d", k)); }
    if (kind == 3) { // free electron in a magnetic field plus parabolic binding keeps E separable: use m-splitting E(m)-E(-m) = -B m (library sign: -B m/2 each)
      double B = g.uniform(0.05, 0.5); int am = g.integer(1, 2); std::vector<int> ls, mp, mn; for (int k = am; k <= 5; k++) { ls.push_back(k); mp.push_back(am); mn.push_back(-am); }
      auto Lp = rich(g, 2, 30, ls, mp), Ln = rich(g, 2, 30, ls, mn); c.m.begin(vf::fmt("zeeman B=%.8g m=%d", B, am));
      Vector a = eig(Lp, Lp.kinetic() + Lp.nuclear() + Lp.Bz_field(B)), b = eig(Ln, Ln.kinetic() + Ln.nuclear() + Ln.Bz_field(B));
      c.m.close("spec.zeeman", a(0) - b(0), -B * am, 1e-9); }
  }
}
// H2+-like: the one-centre expansion approaches the two-centre energies from above and is mirror symmetric
VF_SECTION("offcentre_spectra") {
  auto &g = c.rng;
  for (int i = 0; i < c.n(6, 40); i++) {
    double Rh = g.uniform(0.3, 1.2); int Zl = g.integer(0, 3), Zr = g.integer(1, 3); std::vector<int> l, m; int mm = g.integer(0, 2); for (int k = mm; k <= mm + 8; k++) { l.push_back(k); m.push_back(mm); }
    c.m.begin(vf::fmt("offcentre Rh=%.8g Zl=%d Zr=%d m=%d", Rh, Zl, Zr, mm));
    auto A = rich(g, 1, 20, l, m, 5, 10, Zl, Zr, Rh), B = rich(g, 1, 20, l, m, 5, 10, Zr, Zl, Rh);
    Vector a = eig(A, A.kinetic() + A.nuclear()), b = eig(B, B.kinetic() + B.nuclear());
    for (int k = 0; k < 4; k++) c.m.close("spec.mirror", a(k), b(k), 2e-5 * std::abs(a(k)) + 1e-7);   // radial orders differ by the random node count
    std::vector<int> ls(l.begin(), l.end() - 3), ms(m.begin(), m.end() - 3); vf::Rng g2(1);
    auto C = rich(g2, 1, 20, ls, ms, 5, 10, Zl, Zr, Rh), Dd = rich(g2, 1, 20, l, m, 5, 10, Zl, Zr, Rh);
    Vector cc = eig(C, C.kinetic() + C.nuclear()), dd = eig(Dd, Dd.kinetic() + Dd.nuclear());
    c.m.require("spec.variational", dd(0) <= cc(0) + 1e-7, vf::fmt("%g %g", dd(0), cc(0)));
  }
}

// orbital values, gradients, Laplacians at the quadrature points
typedef std::complex<double> cd;
VF_SECTION("evaluation") {
  auto &g = c.rng; double ep = 2.3e-16;
  for (int i = 0; i < c.n(120, 1000); i++) {
    vfa::Opt o; o.lmax = g.integer(1, 6); auto a = vfa::make<double>(g, o); auto &R = a.R; auto &L = a.lib;
    double cth = g.coin(0.1) ? g.pick({1.0, -1.0}) : g.coin(0.2) ? g.pick({1.0, -1.0}) * (1 - g.loguniform(1e-12, 1e-2)) : g.uniform(-1, 1), phi = g.uniform(-4, 7);
    c.m.begin(vf::fmt("eval cth=%.17g phi=%.17g ", cth, phi) + a.desc);
    q x = cth, s = sqrtq((1 - x) * (1 + x));
    // Theta and its theta-derivative from the ladder relation, exact at the poles
    std::vector<cd> Y, dY;
    for (int k = 0; k < a.nang(); k++) {
      int l = a.l[k], m = a.m[k]; q n0 = sqrtq(2 * M_PIq);
      q t = ref::theta(l, m, x) / n0, up = m + 1 <= l ? ref::theta(l, m + 1, x) / n0 : (q)0, dn = m - 1 >= -l ? ref::theta(l, m - 1, x) / n0 : (q)0;
      q d = (sqrtq((l - m) * (q)(l + m + 1)) * up - sqrtq((l + m) * (q)(l - m + 1)) * dn) / 2;
      cd e = std::exp(cd(0, m * phi)); Y.push_back((double)t * e); dY.push_back((double)d * e);
    }
    for (int e = 0; e < R.nel(); e++) {
      Vector r = L.get_r(e), w = L.get_wrad(e); int np = r.size(), nb = R.glo[e].size();
      if (!c.m.require("eval.points", np == a.nq && w.size() == np)) continue;
      Eigen::MatrixXcd f = L.eval_bf(e, cth, phi), dr, dt, dp, lf = L.eval_lf(e, cth, phi); L.eval_df(e, cth, phi, dr, dt, dp);
      auto shp = [&](const Eigen::MatrixXcd &M) { return M.rows() == np && M.cols() == nb * a.nang(); };
      if (!c.m.require("eval.shape", shp(f) && shp(dr) && shp(dt) && shp(dp) && shp(lf))) continue;
      double wf = 0, wr = 0, wt = 0, wp = 0, wl = 0, sf = 0, sr = 0, st = 0, sl = 0; 
      double h = (double)R.half(e); 
      for (int p = 0; p < np; p++) {
        q xx = R.xof(e, (q)r(p)); auto b0 = R.evalR(e, xx, 0), b1 = R.evalR(e, xx, 1), b2 = R.evalR(e, xx, 2);
        for (int k = 0; k < a.nang(); k++) for (int j = 0; j < nb; j++) {
          int col = k * nb + j; double v0 = (double)b0[j], v1 = (double)b1[j], v2 = (double)b2[j]; double rp = r(p); int l = a.l[k];
          auto up = [](double &m, double v) { if (!(v <= m)) m = v; };
          up(wf, std::abs(f(p, col) - v0 * Y[k])); up(sf, std::abs(v0)); up(wr, std::abs(dr(p, col) - v1 * Y[k])); up(sr, std::abs(v1));
          up(wt, std::abs(dt(p, col) - v0 * dY[k])); up(st, std::abs(v0) * (l + 1)); up(wp, std::abs(dp(p, col) - cd(0, a.m[k]) * v0 * Y[k]));
          up(wl, std::abs(lf(p, col) - (v2 + 2 * v1 / rp - l * (l + 1) * v0 / rp / rp) * Y[k])); up(sl, std::abs(v2) + 2 * std::abs(v1) / rp + l * (l + 1) * std::abs(v0) / rp / rp);
        }
      }
      // derivatives of the over-r functions lose up to n^2 per order and the position is only known to eps*|r|
      double amp = 20.0 * a.nn * a.nn * (1 + a.b[e] / h) * (a.id == 8 ? 30 : a.id == 5 ? 8 : 2);
      double sn = (double)s, pole = sn > 1e-9 ? ep * 60 / sn : 0;   // sin(theta) follows from a rounded cosine
      c.m.small("eval.value", wf / (sf > 0 ? sf : 1), amp * ep + pole, vf::fmt("el=%d", e)); c.m.small("eval.dr", wr / (sr > 0 ? sr : 1), amp * 10 * ep + pole, vf::fmt("el=%d", e));
      c.m.small("eval.dtheta", wt / (st > 0 ? st : 1), amp * ep * 4 + pole, vf::fmt("el=%d", e)); c.m.small("eval.dphi", wp / (st > 0 ? st : 1), amp * ep + pole, vf::fmt("el=%d", e));
      c.m.small("eval.laplacian", wl / (sl > 0 ? sl : 1), amp * 40 * ep + pole, vf::fmt("el=%d", e));
    }
    if (i % 20 == 0) { // higher precision evaluation is refused, not truncated
      auto lb = vfa::make<long double>(g, o); Eigen::MatrixXcd d1, d2, d3;
      c.m.require("eval.long_double_refused", !vf::thrown([&] { lb.lib.eval_bf(0, 0.1, 0.2); }).empty() && !vf::thrown([&] { lb.lib.eval_df(0, 0.1, 0.2, d1, d2, d3); }).empty() && !vf::thrown([&] { lb.lib.eval_lf(0, 0.1, 0.2); }).empty()); }
  }
}
// matrices assembled from pointwise orbital values: overlap, gradient-form kinetic, dipole, -1/2 <f|lapl f>
VF_SECTION("pointwise") {
  auto &g = c.rng;
  for (int i = 0; i < c.n(16, 120); i++) {
    vfa::Opt o; o.lmax = g.integer(1, 3); o.maxn = 4; o.maxel = 3; o.maxang = 5; o.rlo = 1; o.rhi = 10; o.fixnq = 60; auto a = vfa::make<double>(g, o); auto &L = a.lib; int n = a.N();
    c.m.begin("pointwise " + a.desc);
    Vector cth, phi, wa; int la = 2 * o.lmax + 6; const auto &gq = ref::gauss(la); cth.resize(la); Vector wc(la); for (int k = 0; k < la; k++) { cth(k) = (double)gq.first[k]; wc(k) = (double)gq.second[k]; }
    Eigen::MatrixXcd S = Eigen::MatrixXcd::Zero(n, n), K = S, D = S; int nphi = 2 * o.lmax + 3;
    for (int e = 0; e < a.R.nel(); e++) {
      auto idx = L.bf_list(e); Vector r = L.get_r(e), w = L.get_wrad(e);
      for (int t = 0; t < la; t++) for (int p = 0; p < nphi; p++) {
        double ph = 2 * M_PI * p / nphi, W = wc(t) * 2 * M_PI / nphi, sn2 = 1 - cth(t) * cth(t);
        Eigen::MatrixXcd f = L.eval_bf(e, cth(t), ph), dr, dt, dp; L.eval_df(e, cth(t), ph, dr, dt, dp);
        Vector ww = (w.array() * r.array().square() * W).matrix(), wi = (w.array() * W).matrix();
        Eigen::MatrixXcd s = f.adjoint() * ww.asDiagonal() * f, k = dr.adjoint() * ww.asDiagonal() * dr + dt.adjoint() * wi.asDiagonal() * dt + dp.adjoint() * (wi / sn2).asDiagonal() * dp, d = f.adjoint() * (ww.array() * r.array() * cth(t)).matrix().asDiagonal() * f;
        for (size_t x = 0; x < idx.size(); x++) for (size_t y = 0; y < idx.size(); y++) { S(idx[x], idx[y]) += s(x, y); K(idx[x], idx[y]) += 0.5 * k(x, y); D(idx[x], idx[y]) += d(x, y); }
      }
    }
    auto rel = [&](const char *k, const Eigen::MatrixXcd &M, const Matrix &Rf) { double sc = std::max(Rf.cwiseAbs().maxCoeff(), 1e-12); c.m.small(k, (M - Rf.cast<cd>()).cwiseAbs().maxCoeff() / sc, 1e-7); };
    rel("pw.overlap", S, L.overlap()); rel("pw.kinetic", K, L.kinetic()); if (L.dipole_z().cwiseAbs().maxCoeff() > 0) rel("pw.dipole", D, L.dipole_z());
  }
}
VF_MAIN
