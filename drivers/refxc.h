// independent evaluation of exchange-correlation energies, potentials and matrices on explicit points
#pragma once
#include <general/angular.h>
#include "refatom.h"
#include "refdia.h"
#include "refsad.h"
extern "C" {
#include <xc.h>
}
namespace vfx {
using ref::q; using helfem::Matrix; using helfem::Vector; using helfem::Cube;
struct Fun { int id; Vector par; };                      // id <= 0: none
struct Flags { bool gga = false, mgga = false, lapl = false, exc = true; };
inline Flags flags(int id) {
  Flags f; if (id <= 0) return f; xc_func_type p; if (xc_func_init(&p, id, XC_UNPOLARIZED)) throw std::runtime_error("libxc id");
  int fam = p.info->family; f.mgga = fam == XC_FAMILY_MGGA || fam == XC_FAMILY_HYB_MGGA; f.gga = f.mgga || fam == XC_FAMILY_GGA || fam == XC_FAMILY_HYB_GGA; f.lapl = f.mgga && (p.info->flags & XC_FLAGS_NEEDS_LAPLACIAN); f.exc = p.info->flags & XC_FLAGS_HAVE_EXC; xc_func_end(&p); return f;
}
// basis functions (real and imaginary part) with Cartesian-like gradient components and laplacian on a set of points
struct Points { std::vector<double> w; int n = 0, N = 0; Matrix re[5], im[5]; bool cplx = true, averaged = false; };  // averaged: the second component only enters the kinetic energy density
struct Out { double E = 0, Nel = 0, Ekin = 0; Matrix Ha, Hb; };
inline Vector quad(const Matrix &P, const Matrix &a, const Matrix &b) { return ((P * a).array() * b.array()).colwise().sum().transpose().matrix(); }
inline void den(const Points &p, const Matrix &P, Vector &rho, Vector g[3], Vector &tau, Vector &lap) {
  auto Q = [&](int i, int j) { Vector v = quad(P, p.re[i], p.re[j]); if (p.cplx) v += quad(P, p.im[i], p.im[j]); return v; };
  rho = Q(0, 0); tau = Vector::Zero(p.n); for (int k = 0; k < 3; k++) { g[k] = 2 * Q(0, k + 1); if (p.averaged && k == 1) g[k].setZero(); tau += 0.5 * Q(k + 1, k + 1); } lap = 2 * Q(0, 4) + 4 * tau;
}
inline void addp(const Points &p, Matrix &H, const Vector &v, int i, int j) { Matrix X = p.re[i] * v.asDiagonal() * p.re[j].transpose(); if (p.cplx) X += p.im[i] * v.asDiagonal() * p.im[j].transpose(); H += X; if (i != j) H += X.transpose(); }
// spin-polarised (nspin 2) or not (Pb empty)
inline Out evaluate(const Points &p, const std::vector<Fun> &fs, const Matrix &Pa, const Matrix *Pb, double thr, bool pot = true) {
  int ns = Pb ? 2 : 1, nsig = Pb ? 3 : 1, n = p.n; Vector r[2], g[2][3], t[2], l[2]; den(p, Pa, r[0], g[0], t[0], l[0]); if (Pb) den(p, *Pb, r[1], g[1], t[1], l[1]);
  Matrix rho(ns, n), sig(nsig, n), tau(ns, n), lap(ns, n);
  for (int s = 0; s < ns; s++) { rho.row(s) = r[s].transpose(); tau.row(s) = t[s].transpose(); lap.row(s) = l[s].transpose(); }
  auto dot = [&](int a, int b) { Vector v = Vector::Zero(n); for (int k = 0; k < 3; k++) v += (g[a][k].array() * g[b][k].array()).matrix(); return v; };
  sig.row(0) = dot(0, 0).transpose(); if (Pb) { sig.row(1) = dot(0, 1).transpose(); sig.row(2) = dot(1, 1).transpose(); }
  Vector w = Eigen::Map<const Vector>(p.w.data(), n); Vector tot = rho.colwise().sum().transpose(); Out o; o.Nel = w.dot(tot); o.Ekin = w.dot(Vector(tau.colwise().sum().transpose()));
  Vector e = Vector::Zero(n); Matrix vr = Matrix::Zero(ns, n), vs = Matrix::Zero(nsig, n), vt = Matrix::Zero(ns, n), vl = Matrix::Zero(ns, n); bool gg = false, mm = false, ll = false;
  for (auto &f : fs) if (f.id > 0) {
    Flags fl = flags(f.id); xc_func_type x; if (xc_func_init(&x, f.id, Pb ? XC_POLARIZED : XC_UNPOLARIZED)) throw std::runtime_error("libxc"); xc_func_set_dens_threshold(&x, thr); if (f.par.size()) { Vector c = f.par; xc_func_set_ext_params(&x, c.data()); }
    Vector e1 = Vector::Zero(n); Matrix a1 = Matrix::Zero(ns, n), b1 = Matrix::Zero(nsig, n), c1 = Matrix::Zero(ns, n), d1 = Matrix::Zero(ns, n); double *ep = fl.exc ? e1.data() : nullptr;
    if (fl.mgga) { if (fl.exc) xc_mgga_exc_vxc(&x, n, rho.data(), sig.data(), lap.data(), tau.data(), ep, a1.data(), b1.data(), d1.data(), c1.data()); else xc_mgga_vxc(&x, n, rho.data(), sig.data(), lap.data(), tau.data(), a1.data(), b1.data(), d1.data(), c1.data()); }
    else if (fl.gga) { if (fl.exc) xc_gga_exc_vxc(&x, n, rho.data(), sig.data(), ep, a1.data(), b1.data()); else xc_gga_vxc(&x, n, rho.data(), sig.data(), a1.data(), b1.data()); }
    else { if (fl.exc) xc_lda_exc_vxc(&x, n, rho.data(), ep, a1.data()); else xc_lda_vxc(&x, n, rho.data(), a1.data()); }
    xc_func_end(&x); e += e1; vr += a1; if (fl.gga) { vs += b1; gg = true; } if (fl.mgga) { vt += c1; mm = true; } if (fl.lapl) { vl += d1; ll = true; }
  }
  o.E = (w.array() * e.array() * tot.array()).sum();
  if (!mm) o.Ekin = 0;
  if (!pot) return o;
  for (int s = 0; s < ns; s++) {
    Matrix H = Matrix::Zero(p.N, p.N); auto W = [&](const Vector &v) { return Vector((v.array() * w.array()).matrix()); }; auto row = [&](const Matrix &m, int k) { return Vector(m.row(k).transpose()); };
    addp(p, H, W(row(vr, s)), 0, 0);
    if (gg) for (int k = 0; k < 3; k++) { if (p.averaged && k == 1) continue; Vector u = 2 * (row(vs, s == 0 ? 0 : 2).array() * g[s][k].array()).matrix(); if (Pb) u += (row(vs, 1).array() * g[1 - s][k].array()).matrix(); addp(p, H, W(u), 0, k + 1); }
    if (mm || ll) for (int k = 1; k < 4; k++) addp(p, H, W(0.5 * row(vt, s) + 2 * row(vl, s)), k, k);
    if (ll) addp(p, H, W(row(vl, s)), 0, 4);
    (s ? o.Hb : o.Ha) = H;
  }
  return o;
}
// explicit points: radial (element, r, w) x angular (cos, phi, w)
struct Rad { int e; q r; double w; }; struct Ang { q x; double ph, w; };
inline std::vector<Rad> fine_radial(const ref::FE &R, int n) { std::vector<Rad> v; const auto &g = ref::gauss(n); for (int e = 0; e < R.nel(); e++) for (int i = 0; i < n; i++) v.push_back({e, R.mid(e) + R.half(e) * g.first[i], (double)(g.second[i] * R.half(e))}); return v; }
inline std::vector<Ang> fine_angular(int nth, int nph) { std::vector<Ang> v; const auto &g = ref::gauss(nth); for (int k = 0; k < nth; k++) for (int f = 0; f < nph; f++) v.push_back({g.first[k], 2 * M_PI * (f + 0.3) / nph, (double)g.second[k] * 2 * M_PI / nph}); return v; }
template <class A> Points grid(const A &a, const std::vector<Rad> &rad, const std::vector<Ang> &ang, const std::function<void(int, q, q, double *)> &fn, const std::function<double(q, q)> &vol, int N, bool pure) {
  Points p; p.N = N; std::vector<double> buf(5 * (size_t)N); int tot = (int)(rad.size() * ang.size()); p.n = tot; p.w.resize(tot); for (int k = 0; k < 5; k++) { p.re[k] = Matrix::Zero(N, tot); p.im[k] = Matrix::Zero(N, tot); }
  int at = 0; for (auto &R : rad) { q last = 9; double vw = 0; for (auto &o : ang) {
      if (o.x != last) { std::fill(buf.begin(), buf.end(), 0.0); fn(R.e, R.r, o.x, buf.data()); vw = vol(R.r, o.x); last = o.x; }
      p.w[at] = R.w * o.w * vw; int b = 0;
      for (int la = 0; la < a.nang(); la++) { double c = std::cos(a.m[la] * o.ph), s = std::sin(a.m[la] * o.ph); int nr = a.R.nbf - (pure && a.m[la] != 0);
        for (int j = 0; j < nr; j++, b++) for (int d = 0; d < 5; d++) { double v = buf[5 * b + d]; if (v == 0) continue; if (d == 3) { p.re[d](b, at) = -v * s; p.im[d](b, at) = v * c; } else { p.re[d](b, at) = v * c; p.im[d](b, at) = v * s; } } }
      at++; } }
  return p;
}
inline Points atomic_points(const vfa::AB<double> &a, const std::vector<Rad> &rad, const std::vector<Ang> &an) {
  auto fn = [&](int e, q r, q x, double *o) { q s = sqrtq((1 - x) * (1 + x)), X = a.R.xof(e, r); auto v0 = a.R.evalR(e, X, 0), v1 = a.R.evalR(e, X, 1), v2 = a.R.evalR(e, X, 2);
    for (int la = 0; la < a.nang(); la++) { q t, d; vfd::theta(a.l[la], a.m[la], x, t, d); t /= sqrtq(2 * M_PIq); d /= sqrtq(2 * M_PIq);
      for (size_t j = 0; j < v0.size(); j++) { double *b = o + 5 * (la * a.R.nbf + a.R.glo[e][j]); b[0] = (double)(v0[j] * t); b[1] = (double)(v1[j] * t); b[2] = (double)(v0[j] * d / r); b[3] = (double)(a.m[la] * v0[j] * t / (r * s)); b[4] = (double)((v2[j] + 2 * v1[j] / r - a.l[la] * (a.l[la] + 1) * v0[j] / (r * r)) * t); } } };
  return grid(a, rad, an, fn, [](q r, q) { return (double)(r * r); }, a.N(), false);
}
inline Points diatomic_points(const vfd::DB &a, const std::vector<Rad> &rad, const std::vector<Ang> &an) {
  q R = a.Rh; auto fn = [&, R](int e, q mu, q x, double *o) { q s = sqrtq((1 - x) * (1 + x)), sh = sinhq(mu), ch = coshq(mu), h = R * sqrtq(sh * sh + s * s), hp = R * sh * s, X = a.R.xof(e, mu); auto v0 = a.R.eval(e, X, 0), v1 = a.R.eval(e, X, 1), v2 = a.R.eval(e, X, 2);
    for (int la = 0; la < a.nang(); la++) { int m = a.m[la], l = a.l[la], dr = m != 0; q t, d; vfd::theta(l, m, x, t, d); t /= sqrtq(2 * M_PIq); d /= sqrtq(2 * M_PIq);
      for (size_t j = 0; j < v0.size(); j++) { int g = a.R.glo[e][j] - dr; if (g < 0) continue; double *b = o + 5 * (a.off[la] + g); b[0] = (double)(v0[j] * t); b[1] = (double)(v1[j] * t / h); b[2] = (double)(v0[j] * d / h); b[3] = (double)(m * v0[j] * t / hp); b[4] = (double)((v2[j] + ch / sh * v1[j] - (l * (l + 1) + m * m / (sh * sh)) * v0[j]) * t / (h * h)); } } };
  return grid(a, rad, an, fn, [R](q mu, q x) { q sh = sinhq(mu); return (double)(R * R * R * sh * (sh * sh + (1 - x) * (1 + x))); }, a.N(), true);
}
// the rules the library is asked to use
template <class L> std::vector<Rad> lib_radial(const L &lib, int nel) { std::vector<Rad> v; for (int e = 0; e < nel; e++) { Vector r = lib.get_r(e), w = lib.get_wrad(e); for (int i = 0; i < r.size(); i++) v.push_back({e, r(i), w(i)}); } return v; }
inline std::vector<Ang> lib_angular(int l, int m) { Vector c, p, w; helfem::angular::angular_chebyshev(l, m, c, p, w); std::vector<Ang> v; for (int i = 0; i < c.size(); i++) v.push_back({c(i), p(i), w(i)}); return v; }
// random positive definite density, comparable everywhere in space
inline Matrix density(vf::Rng &g, int n, double mix) { Matrix A(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A(i, j) = g.uniform(-1, 1); Matrix P = Matrix::Identity(n, n) + mix / n * A * A.transpose(); Vector d(n); for (int i = 0; i < n; i++) d(i) = g.uniform(0.7, 1.2); return d.asDiagonal() * P * d.asDiagonal(); }
inline Matrix direction(vf::Rng &g, int n) { Matrix A(n, n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) A(i, j) = A(j, i) = g.uniform(-1, 1); return A / std::sqrt((double)n); }
inline double cmax(const Matrix &M) { return M.size() ? M.cwiseAbs().maxCoeff() : 0; }
inline Fun some(int id) { return Fun{id, Vector()}; }
struct Pair { Fun x, c; std::string desc; bool lapl, mgga, gga, exc, stiff, smooth; };
inline Pair random_functional(vf::Rng &g, bool allow_lapl) {
  static const int xl[] = {1}, cl[] = {7, 9, 12}, xg[] = {101, 106, 117}, cg[] = {130, 131}, xm[] = {202, 203, 497}, cm[] = {231, 267, 498}, xq[] = {700, 718, 206}, cq[] = {702, 719};
  Pair p; int kx = g.integer(-1, allow_lapl ? 3 : 2), kc = g.integer(-1, allow_lapl ? 3 : 2); if (kx < 0 && kc < 0) kx = 0;
  auto pick = [&](const int *v, int n) { return v[g.integer(0, n - 1)]; };
  p.x = some(kx < 0 ? 0 : kx == 0 ? pick(xl, 1) : kx == 1 ? pick(xg, 3) : kx == 2 ? pick(xm, 3) : pick(xq, 3));
  p.c = some(kc < 0 ? 0 : kc == 0 ? pick(cl, 3) : kc == 1 ? pick(cg, 2) : kc == 2 ? pick(cm, 3) : pick(cq, 2));
  if (kx >= 0 && g.coin(0.12)) { p.x.id = g.pick({402, 406, 428}); p.c.id = g.coin(0.5) ? 0 : p.c.id; }
  if (g.coin(0.08)) { p.x.id = 160; if (g.coin()) p.c.id = 0; }
  if (p.x.id == 101 && g.coin(0.4)) { p.x.par.resize(2); p.x.par << g.uniform(0.5, 1.2), g.uniform(0.1, 0.3); }
  if (p.x.id == 106 && g.coin(0.4)) { p.x.par.resize(2); p.x.par << g.uniform(0.002, 0.006), g.uniform(4, 8); }
  if (p.c.id == 131 && g.coin(0.4)) { p.c.par.resize(4); p.c.par << 0.05, 0.13, 0.25, 0.35; }
  Flags a = flags(p.x.id), b = flags(p.c.id); p.lapl = a.lapl || b.lapl; p.mgga = a.mgga || b.mgga; p.gga = a.gga || b.gga; p.exc = a.exc && b.exc; p.stiff = p.lapl || p.x.id == 203 || p.c.id == 267 || p.c.id == 9 || p.x.id == 428;
  p.smooth = !p.mgga && (p.x.id <= 117) && (p.c.id <= 12); p.desc = vf::fmt("x=%d%s c=%d%s", p.x.id, p.x.par.size() ? "(par)" : "", p.c.id, p.c.par.size() ? "(par)" : ""); return p;
}
}  // namespace vfx
