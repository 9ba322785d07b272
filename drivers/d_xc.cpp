// P15: exchange-correlation grids
#include "refxc.h"
#include <chebyshev.h>
#include <atomic/dftgrid.h>
#include <sadatom/dftgrid.h>
#include <diatomic/dftgrid.h>
#include <diatomic/dftgrid_purem.h>
using namespace helfem; using namespace vfx;

struct R1 { double E, N, K; Matrix H; };
struct R2 { double E, N, K; Matrix Ha, Hb; };
typedef std::function<R1(const Fun &, const Fun &, const Matrix &, double)> Ev1;
typedef std::function<R2(const Fun &, const Fun &, const Matrix &, const Matrix &, bool, double)> Ev2;
static double rel(double a, double b, double s) { return std::abs(a - b) / s; }
static bool fin(const Matrix &m) { return m.allFinite(); }

template <class F> static double slope(const F &E, double h) { return (8 * (E(h) - E(-h)) - (E(2 * h) - E(-2 * h))) / (12 * h); }
// the monitors that hold on any grid, exact to rounding or to the finite difference step
static void generic(vf::Ctx &c, const std::string &t, const Pair &f, int n, const Ev1 &e1, const Ev2 &e2, const Matrix &Pa, const Matrix &Pb, const std::function<Matrix()> &dir, double thr) {
  auto &m = c.m; double tolfd = f.stiff ? 1e-3 : 5e-5; Matrix P = Pa + Pb;
  R1 r = e1(f.x, f.c, P, thr); R2 u = e2(f.x, f.c, Pa, Pb, true, thr); double sE = std::abs(r.E) + 1e-12, sH = cmax(r.H) + 1e-12, sU = std::max(cmax(u.Ha), cmax(u.Hb)) + 1e-12;
  // the functional library itself overflows on vanishing densities: the documented threshold has to be used then
  bool ok = std::isfinite(r.E) && std::isfinite(u.E) && fin(r.H) && fin(u.Ha) && fin(u.Hb); if (!ok) { m.event("needs_threshold"); thr = 1e-11; r = e1(f.x, f.c, P, thr); u = e2(f.x, f.c, Pa, Pb, true, thr); sE = std::abs(r.E) + 1e-12; sH = cmax(r.H) + 1e-12; sU = std::max(cmax(u.Ha), cmax(u.Hb)) + 1e-12; }
  if (!m.require(t + ".finite", std::isfinite(r.E) && std::isfinite(u.E) && fin(r.H) && fin(u.Ha) && fin(u.Hb)) || !m.require(t + ".shape", r.H.rows() == n && r.H.cols() == n && u.Ha.rows() == n && u.Hb.cols() == n)) return;
  m.small(t + ".hermitian", std::max(cmax(r.H - r.H.transpose()) / sH, cmax(u.Ha - u.Ha.transpose()) / sU), 1e-12);
  if (!ok) return;   // with points cut away the derivative relations are not exact
  if (f.exc) {   // Fock matrix = derivative of the energy
    Matrix D = dir(), D2 = dir(); double h = 4e-3;
    auto E1 = [&](double x) { return e1(f.x, f.c, P + x * D, thr).E; }; double fd = slope(E1, h), sc = r.H.cwiseAbs().cwiseProduct(D.cwiseAbs()).sum();
    double er = rel((r.H * D).trace(), fd, sc + 1e-12); if (er > tolfd) er = std::min(er, rel((r.H * D).trace(), slope(E1, h / 8), sc + 1e-12)); m.small(t + ".derivative", er, tolfd, f.desc);
    auto E2 = [&](double x) { return e2(f.x, f.c, Pa + x * D, Pb + x * D2, true, thr).E; }; fd = slope(E2, h); sc = u.Ha.cwiseAbs().cwiseProduct(D.cwiseAbs()).sum() + u.Hb.cwiseAbs().cwiseProduct(D2.cwiseAbs()).sum();
    double tr = (u.Ha * D).trace() + (u.Hb * D2).trace(); er = rel(tr, fd, sc + 1e-12); if (er > tolfd) er = std::min(er, rel(tr, slope(E2, h / 8), sc + 1e-12)); m.small(t + ".derivative_polarised", er, tolfd, f.desc);
  }
  // closed shell = polarised with equal spins
  R2 hs = e2(f.x, f.c, P / 2, P / 2, true, thr); double ts = f.stiff ? 1e-9 : 1e-10;
  m.small(t + ".closed_shell", std::max({rel(hs.E, r.E, sE), rel(hs.N, r.N, r.N), rel(hs.K, r.K, r.K + 1), cmax(hs.Ha - r.H) / sH, cmax(hs.Hb - r.H) / sH}), ts, f.desc);
  // spin exchange
  R2 sw = e2(f.x, f.c, Pb, Pa, true, thr); m.small(t + ".spin_swap", std::max({rel(sw.E, u.E, sE), cmax(sw.Ha - u.Hb) / sU, cmax(sw.Hb - u.Ha) / sU}), ts, f.desc);
  // the beta matrix is only skipped, nothing else changes
  R2 nb = e2(f.x, f.c, Pa, Pb, false, thr); m.require(t + ".beta_skipped", nb.E == u.E || std::abs(nb.E - u.E) < 1e-12 * sE); m.small(t + ".beta_skipped_alpha", cmax(nb.Ha - u.Ha) / sU, 1e-13); m.require(t + ".beta_skipped_zero", nb.Hb.rows() == n && nb.Hb.isZero(0), f.desc);
  // sum of the parts
  if (f.x.id > 0 && f.c.id > 0) { R1 a = e1(f.x, Fun{0, Vector()}, P, thr), b = e1(Fun{0, Vector()}, f.c, P, thr); m.small(t + ".additive", std::max(rel(a.E + b.E, r.E, std::abs(a.E) + std::abs(b.E)), cmax(a.H + b.H - r.H) / std::max(cmax(a.H), cmax(b.H))), 1e-12, f.desc); m.small(t + ".additive_n", std::max(rel(a.N, r.N, r.N), rel(b.N, r.N, r.N)), 1e-12); m.event("sums_of_parts"); }
  // a density below the threshold does not contribute
  R1 z = e1(f.x, f.c, P, 1e20); m.require(t + ".threshold_cuts_all", z.E == 0 && z.H.isZero(0) && rel(z.N, r.N, r.N) < 1e-13); m.event(f.lapl ? "laplacian_functionals" : f.mgga ? "tau_functionals" : f.gga ? "gga_functionals" : "lda_functionals");
}
static void hostile(vf::Ctx &c, const std::string &t, const Pair &f, int n, const Ev1 &e1, const Ev2 &e2) {
  auto &g = c.rng; Matrix Z = Matrix::Zero(n, n), v(n, 1); for (int i = 0; i < n; i++) v(i, 0) = g.uniform(-1, 1); Matrix D = v * v.transpose(), s = Z; int k = g.integer(0, n - 1); s(k, k) = 1;
  double thr = g.pick({1e-10, 1e-12, 1e-15});
  for (const Matrix *P : {&Z, &D, &s}) { R1 r = e1(f.x, f.c, *P, thr); c.m.require(t + ".finite_hostile", std::isfinite(r.E) && fin(r.H), f.desc); R2 u = e2(f.x, f.c, *P, Z, false, thr); c.m.require(t + ".finite_no_beta", std::isfinite(u.E) && fin(u.Ha) && fin(u.Hb), f.desc); R2 w = e2(f.x, f.c, D * 1e-7, *P, true, thr); c.m.require(t + ".finite_tiny", std::isfinite(w.E) && fin(w.Ha) && fin(w.Hb), f.desc); }
  R1 r = e1(f.x, f.c, Z, thr); c.m.require(t + ".vacuum", r.E == 0 && r.N == 0 && r.H.isZero(0)); R2 u = e2(f.x, f.c, Z, Z, true, thr); c.m.require(t + ".vacuum_polarised", u.E == 0 && u.N == 0 && u.Ha.isZero(0) && u.Hb.isZero(0)); c.m.event("hostile_densities", 9);
}
static void against(vf::Ctx &c, const std::string &t, const Pair &f, const Points &p, const Ev1 &e1, const Ev2 &e2, const Matrix &Pa, const Matrix &Pb, double thr, double tol, double toln) {
  Matrix P = Pa + Pb; R1 r = e1(f.x, f.c, P, thr); Out o = evaluate(p, {f.x, f.c}, P, nullptr, thr);
  c.m.small(t + ".electrons", rel(r.N, o.Nel, o.Nel), toln); c.m.small(t + ".kinetic", rel(r.K, o.Ekin, o.Ekin + 1e-3), toln, f.desc); c.m.small(t + ".energy", rel(r.E, o.E, std::abs(o.E) + 1e-9), tol, f.desc); c.m.small(t + ".matrix", cmax(r.H - o.Ha) / (cmax(o.Ha) + 1e-12), 30 * tol, f.desc);
  R2 u = e2(f.x, f.c, Pa, Pb, true, thr); o = evaluate(p, {f.x, f.c}, Pa, &Pb, thr);
  c.m.small(t + ".electrons", rel(u.N, o.Nel, o.Nel), toln); c.m.small(t + ".kinetic", rel(u.K, o.Ekin, o.Ekin + 1e-3), toln, f.desc); c.m.small(t + ".energy_polarised", rel(u.E, o.E, std::abs(o.E) + 1e-9), tol, f.desc); c.m.small(t + ".matrix_polarised", std::max(cmax(u.Ha - o.Ha), cmax(u.Hb - o.Hb)) / (cmax(o.Ha) + 1e-12), 30 * tol, f.desc);
}

static Ev1 atom1(const vfa::AB<double> &a, int L, int M) { return [&a, L, M](const Fun &x, const Fun &c, const Matrix &P, double thr) { R1 r; atomic::dftgrid::DFTGrid g(&a.lib, L, M); g.eval_Fxc(x.id, x.par, c.id, c.par, P, r.H, r.E, r.N, r.K, thr); return r; }; }
static Ev2 atom2(const vfa::AB<double> &a, int L, int M) { return [&a, L, M](const Fun &x, const Fun &c, const Matrix &Pa, const Matrix &Pb, bool beta, double thr) { R2 r; atomic::dftgrid::DFTGrid g(&a.lib, L, M); g.eval_Fxc(x.id, x.par, c.id, c.par, Pa, Pb, r.Ha, r.Hb, r.E, r.N, r.K, beta, thr); return r; }; }
VF_SECTION("atomic") {
  auto &g = c.rng;
  for (int it = 0; it < c.n(24, 300); it++) {
    vfa::Opt o; o.lmax = g.integer(0, 2); o.maxang = 4; o.maxel = 3; o.maxn = 4; o.rhi = 10; o.fixnq = 14; auto a = vfa::make<double>(g, o); int n = a.N(); Pair f = random_functional(g, true);
    c.m.begin("atomic " + f.desc + " " + a.desc); Ev1 e1 = atom1(a, 9, 8); Ev2 e2 = atom2(a, 9, 8); Matrix Pa = density(g, n, 1), Pb = density(g, n, 1); auto dir = [&] { return direction(g, n); };
    generic(c, "at", f, n, e1, e2, Pa, Pb, dir, 1e-25);
    if (it % 3 == 0) hostile(c, "at", f, n, e1, e2);
  }
}
VF_SECTION("atomic_reference") {
  auto &g = c.rng;
  for (int it = 0; it < c.n(16, 150); it++) {
    vfa::Opt o; o.lmax = g.integer(0, 2); o.maxang = 4; o.maxel = 2; o.maxn = 4; o.rhi = 8; o.fixnq = it % 2 ? 10 : 40; auto a = vfa::make<double>(g, o); Pair f = random_functional(g, it % 2); while (it % 2 == 0 && !f.smooth) f = random_functional(g, false);
    c.m.begin("atomic_reference " + f.desc + " " + a.desc);
    if (it % 2) { int L = g.integer(3, 9), M = g.integer(2, 9); Points p = atomic_points(a, lib_radial(a.lib, a.R.nel()), lib_angular(L, M)); against(c, "at.pointwise", f, p, atom1(a, L, M), atom2(a, L, M), density(g, a.N(), 2), density(g, a.N(), 2), g.pick({1e-20, 1e-6, 1e-2}), 1e-9, 1e-11); }
    else { Points p = atomic_points(a, fine_radial(a.R, 24), fine_angular(24, 20)); against(c, "at.converged", f, p, atom1(a, 30, 20), atom2(a, 30, 20), density(g, a.N(), 0.5), density(g, a.N(), 0.5), 1e-20, 2e-2, 1e-7); }
  }
}
// symmetries of space that the grid respects: mirror plane (m -> -m) and order of the list
VF_SECTION("atomic_symmetry") {
  auto &g = c.rng;
  for (int it = 0; it < c.n(16, 150); it++) {
    vfa::Opt o; o.lmax = g.integer(1, 2); o.maxang = 4; o.maxel = 2; o.maxn = 4; o.rhi = 8; o.fixnq = 12; o.sphere = o.lmax == 1 && g.coin(0.5); auto a = vfa::make<double>(g, o); int n = a.N(); Pair f = random_functional(g, true);
    c.m.begin("atomic_symmetry " + f.desc + " " + a.desc); int L = g.integer(4, 9), M = g.integer(4, 9); auto e1 = atom1(a, L, M); Matrix P = density(g, n, 2); R1 r = e1(f.x, f.c, P, 1e-25); double sE = std::abs(r.E) + 1e-12, sH = cmax(r.H) + 1e-12;
    // inversion: parity (-1)^l maps cos -> -cos, phi -> phi + pi; the rule is symmetric under cos -> -cos with (-1)^(l+m)
    Vector d(n); for (int i = 0; i < a.nang(); i++) d.segment(i * a.R.nbf, a.R.nbf).setConstant((a.l[i] + std::abs(a.m[i])) % 2 ? -1 : 1); R1 s = e1(f.x, f.c, d.asDiagonal() * P * d.asDiagonal(), 1e-25); c.m.small("at.mirror", std::max(rel(s.E, r.E, sE), cmax(d.asDiagonal() * s.H * d.asDiagonal() - r.H) / sH), 1e-9, f.desc);
    // a list in another order describes the same space
    std::vector<int> pm; for (int i = 0; i < a.nang(); i++) pm.push_back(i); for (size_t i = pm.size(); i > 1; i--) std::swap(pm[i - 1], pm[g.integer(0, (int)i - 1)]);
    Eigen::VectorXi lv(a.nang()), mv(a.nang()); Matrix U = Matrix::Zero(n, n); for (int i = 0; i < a.nang(); i++) { lv(i) = a.l[pm[i]]; mv(i) = a.m[pm[i]]; for (int k = 0; k < a.R.nbf; k++) U(i * a.R.nbf + k, pm[i] * a.R.nbf + k) = 1; }
    auto b = a; b.lib = atomic::basis::TwoDBasis(a.Z, modelpotential::POINT_NUCLEUS, 0.0, make_poly<double>(a.id, a.nn), a.zd, a.nq, to_vec<double>(a.b), lv, mv, 0, 0, 0.0); R1 t = atom1(b, L, M)(f.x, f.c, U * P * U.transpose(), 1e-25); c.m.small("at.permutation", std::max(rel(t.E, r.E, sE), cmax(U.transpose() * t.H * U - r.H) / sH), 1e-10, f.desc);
    // conjugating every function (m -> -m) reflects phi
    for (int i = 0; i < a.nang(); i++) { lv(i) = a.l[i]; mv(i) = -a.m[i]; } b.lib = atomic::basis::TwoDBasis(a.Z, modelpotential::POINT_NUCLEUS, 0.0, make_poly<double>(a.id, a.nn), a.zd, a.nq, to_vec<double>(a.b), lv, mv, 0, 0, 0.0); Vector sg(n); for (int i = 0; i < a.nang(); i++) sg.segment(i * a.R.nbf, a.R.nbf).setConstant(a.m[i] % 2 ? -1 : 1);
    R1 w = atom1(b, L, M)(f.x, f.c, sg.asDiagonal() * P * sg.asDiagonal(), 1e-25); c.m.small("at.conjugation", std::max(rel(w.E, r.E, sE), cmax(sg.asDiagonal() * w.H * sg.asDiagonal() - r.H) / sH), 1e-9, f.desc);
  }
}

static Ev1 dia1(const vfd::DB &a, int L, int M) { return [&a, L, M](const Fun &x, const Fun &c, const Matrix &P, double thr) { R1 r; diatomic::dftgrid::DFTGrid g(a.lib.get(), L, M); g.eval_Fxc(x.id, x.par, c.id, c.par, P, r.H, r.E, r.N, r.K, thr); return r; }; }
static Ev2 dia2(const vfd::DB &a, int L, int M) { return [&a, L, M](const Fun &x, const Fun &c, const Matrix &Pa, const Matrix &Pb, bool beta, double thr) { R2 r; diatomic::dftgrid::DFTGrid g(a.lib.get(), L, M); g.eval_Fxc(x.id, x.par, c.id, c.par, Pa, Pb, r.Ha, r.Hb, r.E, r.N, r.K, beta, thr); return r; }; }
static Ev1 pur1(const vfd::DB &a, int L) { return [&a, L](const Fun &x, const Fun &c, const Matrix &P, double thr) { R1 r; diatomic::dftgrid_purem::PureMDFTGrid g(a.lib.get(), L); g.eval_Fxc(x.id, x.par, c.id, c.par, P, r.H, r.E, r.N, r.K, thr); return r; }; }
static Ev2 pur2(const vfd::DB &a, int L) { return [&a, L](const Fun &x, const Fun &c, const Matrix &Pa, const Matrix &Pb, bool beta, double thr) { R2 r; diatomic::dftgrid_purem::PureMDFTGrid g(a.lib.get(), L); g.eval_Fxc(x.id, x.par, c.id, c.par, Pa, Pb, r.Ha, r.Hb, r.E, r.N, r.K, beta, thr); return r; }; }
static vfd::DB dmake(vf::Rng &g, int nq) { vfd::Opt o; o.lmax = g.integer(0, 2); o.maxang = 4; o.maxel = 2; o.maxn = 4; o.mulo = 0.8; o.muhi = 2.5; o.fixnq = nq; o.Rh = g.uniform(0.4, 2); return vfd::make(g, o); }
// keep only the blocks that do not mix m
static Matrix pure(const vfd::DB &a, Matrix P) { for (int i = 0; i < a.nang(); i++) for (int j = 0; j < a.nang(); j++) if (a.m[i] != a.m[j] && a.nr(i) && a.nr(j)) P.block(a.off[i], a.off[j], a.nr(i), a.nr(j)).setZero(); return P; }
VF_SECTION("diatomic") {
  auto &g = c.rng;
  for (int it = 0; it < c.n(20, 250); it++) {
    auto a = dmake(g, 12); Pair f = random_functional(g, false); int n = a.N(); c.m.begin("diatomic " + f.desc + " " + a.desc); auto e1 = dia1(a, 8, 7); auto e2 = dia2(a, 8, 7); Matrix Pa = density(g, n, 1), Pb = density(g, n, 1);
    generic(c, "di", f, n, e1, e2, Pa, Pb, [&] { return direction(g, n); }, 1e-25); if (it % 3 == 0) hostile(c, "di", f, n, e1, e2);
    // Laplacian functionals are not available on this grid: say so
    if (it % 5 == 0) { Fun q = some(g.pick({700, 718, 206})), z = some(0); c.m.require("di.laplacian_refused", !vf::thrown([&] { e1(q, z, Pa, 1e-12); }).empty() && !vf::thrown([&] { e2(q, z, Pa, Pb, true, 1e-12); }).empty()); }
  }
}
VF_SECTION("diatomic_reference") {
  auto &g = c.rng;
  for (int it = 0; it < c.n(16, 150); it++) {
    auto a = dmake(g, it % 2 ? 8 : 30); Pair f = random_functional(g, false); while (it % 2 == 0 && !f.smooth) f = random_functional(g, false); int n = a.N(); c.m.begin("diatomic_reference " + f.desc + " " + a.desc);
    if (it % 2) { int L = g.integer(3, 8), M = g.integer(2, 8); Points p = diatomic_points(a, lib_radial(*a.lib, a.R.nel()), lib_angular(L, M)); against(c, "di.pointwise", f, p, dia1(a, L, M), dia2(a, L, M), density(g, n, 2), density(g, n, 2), g.pick({1e-20, 1e-6, 1e-2}), 1e-9, 1e-11); }
    else { Points p = diatomic_points(a, fine_radial(a.R, 20), fine_angular(24, 20)); against(c, "di.converged", f, p, dia1(a, 30, 20), dia2(a, 30, 20), density(g, n, 0.5), density(g, n, 0.5), 1e-20, 2e-2, 1e-7); }
  }
}
VF_SECTION("pure_m") {
  auto &g = c.rng;
  for (int it = 0; it < c.n(24, 300); it++) {
    auto a = dmake(g, 12); Pair f = random_functional(g, true); int n = a.N(); c.m.begin("pure_m " + f.desc + " " + a.desc); int L = g.integer(6, 12); auto e1 = pur1(a, L); auto e2 = pur2(a, L); Matrix Pa = pure(a, density(g, n, 1)), Pb = pure(a, density(g, n, 1));
    generic(c, "pm", f, n, e1, e2, Pa, Pb, [&] { return pure(a, direction(g, n)); }, 1e-25);
    if (it % 3 == 0) { auto h1 = [&](const Fun &x, const Fun &y, const Matrix &P, double t) { return e1(x, y, pure(a, P), t); }; auto h2 = [&](const Fun &x, const Fun &y, const Matrix &A, const Matrix &B, bool b, double t) { return e2(x, y, pure(a, A), pure(a, B), b, t); }; hostile(c, "pm", f, n, h1, h2); }
    // the integral over phi done by the three-dimensional grid on the same nu rule; more phi points than any product of functions needs
    { int lm = 0; for (int v : a.m) lm = std::max(lm, std::abs(v)); std::vector<Ang> an; Vector x, w; helfem::chebyshev::chebyshev(L, x, w); for (int i = 0; i < x.size(); i++) for (int k = 0; k < 2 * lm + 1; k++) an.push_back({x(i), 2 * M_PI * k / (2 * lm + 1), w(i) * 2 * M_PI / (2 * lm + 1)});
      Points p = diatomic_points(a, lib_radial(*a.lib, a.R.nel()), an); against(c, "pm.pointwise", f, p, e1, e2, Pa, Pb, g.pick({1e-20, 1e-6}), 1e-9, 1e-11); }
    if (!f.lapl) { R1 r = e1(f.x, f.c, Pa, 1e-20), t = dia1(a, L, 7)(f.x, f.c, Pa, 1e-20); double sE = std::abs(r.E) + 1e-12; c.m.small("pm.same_as_3d", std::max({rel(r.E, t.E, sE), rel(r.N, t.N, r.N), rel(r.K, t.K, r.K + 1), cmax(r.H - t.H) / (cmax(r.H) + 1e-12)}), 1e-9, f.desc);
      R2 u = e2(f.x, f.c, Pa, Pb, true, 1e-20), v = dia2(a, L, 7)(f.x, f.c, Pa, Pb, true, 1e-20); c.m.small("pm.same_as_3d_polarised", std::max({rel(u.E, v.E, sE), rel(u.N, v.N, u.N), rel(u.K, v.K, u.K + 1), cmax(u.Ha - v.Ha) / (cmax(u.Ha) + 1e-12), cmax(u.Hb - v.Hb) / (cmax(u.Ha) + 1e-12)}), 1e-9, f.desc); c.m.event("compared_with_3d"); }
  }
  // the declared +-m symmetry only saves work
  for (int it = 0; it < c.n(8, 100); it++) {
    vfd::Opt o; o.lmax = g.integer(1, 2); o.sphere = true; o.maxel = 1; o.nel = 1; o.maxn = 4; o.ids = {4}; o.mulo = 0.8; o.muhi = 2.5; o.fixnq = 10; o.Rh = g.uniform(0.4, 2); auto a = vfd::make(g, o); Pair f = random_functional(g, true); int n = a.N(); c.m.begin("pure_m_shortcut " + f.desc + " " + a.desc);
    auto find = [&](int l, int m) { for (int i = 0; i < a.nang(); i++) if (a.l[i] == l && a.m[i] == m) return i; return -1; };
    auto symm = [&](Matrix P) { P = pure(a, P); for (int i = 0; i < a.nang(); i++) for (int j = 0; j < a.nang(); j++) if (a.m[i] == a.m[j] && a.m[i] < 0) { int x = find(a.l[i], -a.m[i]), y = find(a.l[j], -a.m[j]); P.block(a.off[i], a.off[j], a.nr(i), a.nr(j)) = P.block(a.off[x], a.off[y], a.nr(x), a.nr(y)); } return P; };
    Matrix Pa = symm(density(g, n, 2)), Pb = symm(density(g, n, 2)); auto e1 = pur1(a, 8); auto e2 = pur2(a, 8); R1 r = e1(f.x, f.c, Pa, 1e-20); R2 u = e2(f.x, f.c, Pa, Pb, true, 1e-20); a.lib->set_absm_symmetric(true); R1 r2 = e1(f.x, f.c, Pa, 1e-20); R2 u2 = e2(f.x, f.c, Pa, Pb, true, 1e-20); a.lib->set_absm_symmetric(false);
    double sE = std::abs(r.E) + 1e-12, sU = std::abs(u.E) + 1e-12; c.m.small("pm.shortcut", std::max({rel(r.E, r2.E, sE), rel(r.N, r2.N, r.N), rel(r.K, r2.K, r.K + 1), cmax(r.H - r2.H) / (cmax(r.H) + 1e-12), rel(u.E, u2.E, sU), rel(u.N, u2.N, u.N), rel(u.K, u2.K, u.K + 1), cmax(u.Ha - u2.Ha) / (cmax(u.Ha) + 1e-12), cmax(u.Hb - u2.Hb) / (cmax(u.Ha) + 1e-12)}), 1e-9, f.desc);
    // and off by default an asymmetric density keeps its own blocks
    Matrix A = pure(a, density(g, n, 2)); R1 x = e1(f.x, f.c, A, 1e-20); if (!f.lapl) { R1 y = dia1(a, 8, 7)(f.x, f.c, A, 1e-20); c.m.small("pm.asymmetric", std::max(rel(x.E, y.E, std::abs(x.E) + 1e-12), cmax(x.H - y.H) / (cmax(x.H) + 1e-12)), 1e-9, f.desc); }
  }
}

// spherically averaged atom: the l-resolved densities are stacked into one vector for the generic monitors
static Cube unpack(const Matrix &P, int nl, int nr) { Cube C; for (int l = 0; l < nl; l++) C.push_back(P.block(l * nr, l * nr, nr, nr)); return C; }
static Matrix pack(const Cube &C, int nr) { int nl = (int)C.size(); Matrix P = Matrix::Zero(nl * nr, nl * nr); for (int l = 0; l < nl; l++) if (C[l].rows() == nr) P.block(l * nr, l * nr, nr, nr) = C[l]; else P.resize(0, 0); return P; }
static Points spherical_points(const vfs::SB &a, const std::vector<Rad> &rad) {   // l blocks with an explicit transverse component
  Points p; int nr = a.R.nbf, nl = a.lmax + 1; p.N = nr * nl; p.n = (int)rad.size(); p.cplx = false; p.averaged = true; for (int k = 0; k < 5; k++) p.re[k] = Matrix::Zero(p.N, p.n);
  for (int i = 0; i < p.n; i++) { q r = rad[i].r, X = a.R.xof(rad[i].e, r); auto v0 = a.R.evalR(rad[i].e, X, 0), v1 = a.R.evalR(rad[i].e, X, 1), v2 = a.R.evalR(rad[i].e, X, 2); p.w.push_back(rad[i].w * 4 * M_PI * (double)(r * r));
    for (int l = 0; l < nl; l++) for (size_t j = 0; j < v0.size(); j++) { int b = l * nr + a.R.glo[rad[i].e][j]; p.re[0](b, i) = (double)v0[j]; p.re[1](b, i) = (double)v1[j]; p.re[2](b, i) = (double)(v0[j] * sqrtq((q)l * (l + 1)) / r); p.re[4](b, i) = (double)(v2[j] + 2 * v1[j] / r - (q)l * (l + 1) * v0[j] / (r * r)); } }
  return p;
}
VF_SECTION("spherical") {
  auto &g = c.rng;
  for (int it = 0; it < c.n(60, 600); it++) {
    auto a = vfs::make(g, 3, 5, 1, 12, 2, false, g.coin(0.8)); int nr = a.R.nbf, nl = a.lmax + 1, n = nr * nl; Pair f = random_functional(g, true); c.m.begin("spherical " + f.desc + " " + a.desc);
    auto blk = [&](const Matrix &P) { return pack(unpack(P, nl, nr), nr); };
    Ev1 e1 = [&](const Fun &x, const Fun &y, const Matrix &P, double thr) { R1 r; Cube H; sadatom::dftgrid::DFTGrid G(&a.lib); r.K = 0; G.eval_Fxc(x.id, x.par, y.id, y.par, unpack(P, nl, nr), H, r.E, r.N, thr); r.H = pack(H, nr); return r; };
    Ev2 e2 = [&](const Fun &x, const Fun &y, const Matrix &A, const Matrix &B, bool beta, double thr) { R2 r; Cube Ha, Hb; sadatom::dftgrid::DFTGrid G(&a.lib); r.K = 0; G.eval_Fxc(x.id, x.par, y.id, y.par, unpack(A, nl, nr), unpack(B, nl, nr), Ha, Hb, r.E, r.N, beta, thr); r.Ha = pack(Ha, nr); r.Hb = pack(Hb, nr); return r; };
    Matrix Pa = blk(density(g, n, 1)), Pb = blk(density(g, n, 1)); generic(c, "sa", f, n, e1, e2, Pa, Pb, [&] { return blk(direction(g, n)); }, 1e-25);
    if (it % 3 == 0) { auto h1 = [&](const Fun &x, const Fun &y, const Matrix &P, double t) { return e1(x, y, blk(P), t); }; auto h2 = [&](const Fun &x, const Fun &y, const Matrix &A, const Matrix &B, bool b, double t) { return e2(x, y, blk(A), blk(B), b, t); }; hostile(c, "sa", f, n, h1, h2); }
    Points p = spherical_points(a, lib_radial(a.lib, a.R.nel())); Pair f0 = f; Matrix P = Pa + Pb; double thr = g.pick({1e-20, 1e-6, 1e-2});
    { R1 r = e1(f.x, f.c, P, thr); Out o = evaluate(p, {f.x, f.c}, P, nullptr, thr); c.m.small("sa.pointwise.electrons", rel(r.N, o.Nel, o.Nel), 1e-11); c.m.small("sa.pointwise.energy", rel(r.E, o.E, std::abs(o.E) + 1e-9), 1e-9, f.desc); c.m.small("sa.pointwise.matrix", cmax(r.H - blk(o.Ha)) / (cmax(o.Ha) + 1e-12), 3e-8, f.desc);
      R2 u = e2(f.x, f.c, Pa, Pb, true, thr); o = evaluate(p, {f.x, f.c}, Pa, &Pb, thr); c.m.small("sa.pointwise.energy_polarised", rel(u.E, o.E, std::abs(o.E) + 1e-9), 1e-9, f.desc); c.m.small("sa.pointwise.matrix_polarised", std::max(cmax(u.Ha - blk(o.Ha)), cmax(u.Hb - blk(o.Hb))) / (cmax(o.Ha) + 1e-12), 3e-8, f.desc); }
    // priming the value cache beforehand, in any order of functionals, changes nothing
    { sadatom::dftgrid::DFTGrid G(&a.lib); R1 r = e1(f.x, f.c, P, thr); Pair o = random_functional(g, true); G.prime_quadrature_cache(o.x.id, o.c.id); G.prime_quadrature_cache(f.x.id, f.c.id); e1(o.x, o.c, P, thr); R1 s = e1(f.x, f.c, P, thr); c.m.require("sa.cache_order", r.E == s.E && r.N == s.N && r.H == s.H, o.desc); }
    // many-body electron count: 4 pi times the sum over l of the overlap traces
    { Matrix S = a.lib.overlap(); double N = 0; Cube C = unpack(P, nl, nr); for (auto &x : C) N += 4 * M_PI * (x * S).trace(); R1 r = e1(f.x, f.c, P, thr); c.m.small("sa.electrons", rel(r.N, N, N), a.nq < 20 ? 2e-2 : 2e-3); }
  }
}
VF_MAIN
