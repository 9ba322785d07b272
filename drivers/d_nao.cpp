// P21: Gaussian, Slater and numerical orbitals: normalisation, projection onto finite elements, diatomic projections
#include "ref2e.h"
#include "refdia.h"
#include "refsad.h"
#include <GTO.h>
#include <NAORadialBasis.h>
#include <STO.h>
#include <general/lcao.h>
#include <diatomic/twodquadrature.h>
using namespace helfem;
using namespace helfem::atomic::basis;
using ref::q;
extern int pbe_ground_states[118][4] __attribute__((weak));   // judged when the library exposes it

namespace {
// one primitive u(r) = N r^k exp(-a r^p), p = 1 (Slater) or 2 (Gaussian)
struct Prim { int k; double a; };
struct Func { std::vector<Prim> p; std::vector<double> c; };
struct Kind {
  int p;
  // int_0^inf r^s exp(-A r^p) dr
  q I(int s, q A) const { return p == 1 ? ref::factorial(s) / powq(A, s + 1) : tgammaq((s + 1) / 2.0Q) / (2 * powq(A, (s + 1) / 2.0Q)); }
  q N(const Prim &x) const { return 1 / sqrtq(I(2 * x.k, 2 * (q)x.a)); }
  q u(const Func &f, q r, int d = 0) const {
    q s = 0;
    for (size_t i = 0; i < f.p.size(); i++) {
      q a = f.p[i].a; int k = f.p[i].k; q e = expq(-a * (p == 1 ? r : r * r)) * N(f.p[i]) * (q)f.c[i];
      s += d == 0 ? powq(r, k) * e : (k * powq(r, k - 1) - p * a * powq(r, k + p - 1)) * e;
    }
    return s;
  }
  // int u_i^(d) u_j^(d) r^pw dr
  q integral(const Func &f, const Func &g, int d, int pw) const {
    q s = 0;
    for (size_t i = 0; i < f.p.size(); i++) for (size_t j = 0; j < g.p.size(); j++) {
      q A = (q)f.p[i].a + (q)g.p[j].a, w = N(f.p[i]) * N(g.p[j]) * (q)f.c[i] * (q)g.c[j]; int K = f.p[i].k, L = g.p[j].k; q a = f.p[i].a, b = g.p[j].a;
      if (d == 0) s += w * I(K + L + pw, A);
      else s += w * (K * L * I(K + L - 2, A) - p * (K * b + L * a) * I(K + L + p - 2, A) + p * p * a * b * I(K + L + 2 * p - 2, A));
    }
    return s;
  }
  // beyond this radius every primitive is below 1e-40 of its peak
  q extent(const Func &f) const { q m = 0; for (auto &x : f.p) m = fmaxq(m, p == 1 ? (x.k + 120 + 10 * sqrtq(x.k)) / (q)x.a : sqrtq((x.k + 120) / (q)x.a)); return m; }
};
std::vector<STOContracted> lib_sto(const std::vector<Func> &F) {
  std::vector<STOContracted> o; for (auto &f : F) { STOContracted s; for (auto &p : f.p) s.primitives.push_back({p.k, p.a}); s.contraction = Vector::Map(f.c.data(), f.c.size()); o.push_back(s); } return o;
}
std::vector<GTOContracted> lib_gto(const std::vector<Func> &F) {
  std::vector<GTOContracted> o; for (auto &f : F) { GTOContracted s; for (auto &p : f.p) s.primitives.push_back({p.k - 1, p.a}); s.contraction = Vector::Map(f.c.data(), f.c.size()); o.push_back(s); } return o;
}
struct Nodes { std::vector<std::vector<q>> B, D; std::vector<q> x, w; };   // primitive values at Gauss nodes of the reference element
Nodes tabulate(const ref::Prim &p, int n) {
  Nodes t; const auto &g = ref::gauss(n); t.x = g.first; t.w = g.second;
  for (q x : t.x) { std::vector<q> b, d; for (int j = 0; j < p.nprim(); j++) { b.push_back(p.dn(j, x, 0, 1)); d.push_back(p.dn(j, x, 1, 1)); } t.B.push_back(b); t.D.push_back(d); }
  return t;
}
// best L2 approximation on the mesh, by banded Cholesky in quad precision
std::vector<q> best(const ref::FE &R, const Nodes &t, std::function<q(q)> u) {
  int n = R.nbf, w = R.p.nprim(); std::vector<std::vector<q>> S(n, std::vector<q>(w, 0)); std::vector<q> b(n, 0);   // S[i][i-j], j <= i
  for (int e = 0; e < R.nel(); e++) for (size_t k = 0; k < t.x.size(); k++) {
    q wt = t.w[k] * R.half(e), uv = u(R.mid(e) + R.half(e) * t.x[k]);
    for (size_t a = 0; a < R.loc[e].size(); a++) { q va = t.B[k][R.loc[e][a]] * wt; b[R.glo[e][a]] += va * uv; for (size_t c = 0; c <= a; c++) S[R.glo[e][a]][R.glo[e][a] - R.glo[e][c]] += va * t.B[k][R.loc[e][c]]; }
  }
  for (int i = 0; i < n; i++) for (int j = std::max(0, i - w + 1); j <= i; j++) {
    q s = S[i][i - j]; for (int k = std::max(0, i - w + 1); k < j; k++) if (j - k < w) s -= S[i][i - k] * S[j][j - k];
    S[i][i - j] = i == j ? sqrtq(s) : s / S[j][0];
  }
  for (int i = 0; i < n; i++) { for (int k = std::max(0, i - w + 1); k < i; k++) b[i] -= S[i][i - k] * b[k]; b[i] /= S[i][0]; }
  for (int i = n - 1; i >= 0; i--) { for (int k = i + 1; k < std::min(n, i + w); k++) b[i] -= S[k][k - i] * b[k]; b[i] /= S[i][0]; }
  return b;
}
// L2 norm of u - sum c_i B_i and of its derivative over the whole half line
void residual(const ref::FE &R, const Nodes &t, const Kind &K, const Func &f, const std::vector<q> &c, q &r0, q &r1) {
  r0 = r1 = 0;
  for (int e = 0; e < R.nel(); e++) for (size_t k = 0; k < t.x.size(); k++) {
    q r = R.mid(e) + R.half(e) * t.x[k], v = K.u(f, r), d = K.u(f, r, 1); for (size_t a = 0; a < R.loc[e].size(); a++) { q ci = c[R.glo[e][a]]; v -= ci * t.B[k][R.loc[e][a]]; d -= ci * t.D[k][R.loc[e][a]] / R.half(e); }
    q w = t.w[k] * R.half(e); r0 += w * v * v; r1 += w * d * d;
  }
  q lo = R.b.back(), hi = K.extent(f); if (hi > lo) { r0 += ref::integrate([&](q r) { q v = K.u(f, r); return v * v; }, lo, hi, 30, 12); r1 += ref::integrate([&](q r) { q v = K.u(f, r, 1); return v * v; }, lo, hi, 30, 12); }
  r0 = sqrtq(r0); r1 = sqrtq(r1);
}
void project(vf::Ctx &c, int p) {
  auto &g = c.rng; Kind K{p}; bool dflt = g.coin(0.4); double tol = dflt ? 1e-12 : std::pow(10., g.uniform(-14, -6)); int nelem = dflt ? 30 : g.integer(8, 40), nnodes = dflt ? 15 : g.integer(6, 15);
  double base = g.loguniform(1e-2, 1e3), spread = g.coin() ? 1 : g.loguniform(1, p == 1 ? 30 : 300); int nf = g.integer(1, 4); std::vector<Func> F; std::string d;
  for (int i = 0; i < nf; i++) {
    Func f; int np = g.integer(1, 4); for (int j = 0; j < np; j++) { f.p.push_back({g.integer(1, p == 1 ? 6 : 7), base * g.loguniform(1, spread)}); f.c.push_back(g.coin(0.1) ? 0 : g.uniform(-1.5, 1.5)); }
    f.c[0] += f.c[0] < 0 ? -0.3 : 0.3; F.push_back(f); d += "{"; for (int j = 0; j < np; j++) d += vf::fmt("%.6g*r^%d(%.8g) ", f.c[j], f.p[j].k, f.p[j].a); d += "}";
  }
  c.m.begin(vf::fmt("%s projection tol=%.3g nelem=%d nnodes=%d ", p == 1 ? "Slater" : "Gaussian", tol, nelem, nnodes) + d);
  auto make = [&] { return p == 1 ? (dflt ? make_nao_sto(lib_sto(F)) : make_nao_sto(lib_sto(F), tol, nelem, nnodes)) : (dflt ? make_nao_gto(lib_gto(F)) : make_nao_gto(lib_gto(F), tol, nelem, nnodes)); };
  NAORadialBasis nao = make(); const auto *fem = dynamic_cast<const FEMRadialBasis *>(&nao.underlying());
  if (!c.m.require("nao.fe_backed", fem != nullptr) || !c.m.require("nao.count", (int)nao.Nbf() == nf && nao.coeffs().cols() == nf)) return;
  ref::FE R; auto poly = make_poly<double>(4, nnodes); R.p = ref_prim<double>(*poly, 4, nnodes); Vector bv = fem->get_fem().get_bval(); for (int i = 0; i < bv.size(); i++) R.b.push_back(bv(i)); R.setup(true, false, true, false);
  c.m.require("nao.mesh", (int)bv.size() == nelem + 1 && bv(0) == 0 && (int)nao.coeffs().rows() == R.nbf, vf::fmt("%d boundaries", (int)bv.size()));
  if ((int)nao.coeffs().rows() != R.nbf) return;
  // extent: every primitive has decayed below tol of its peak, and the mesh is not wasteful
  for (auto &f : F) for (auto &x : f.p) { q pk = p == 1 ? x.k / (q)x.a : sqrtq(x.k / (2 * (q)x.a)); Func o{{x}, {1}}; c.m.small("nao.extent", (long double)(K.u(o, R.b.back()) / K.u(o, pk)), tol * 1.001L); }
  Nodes t = tabulate(R.p, 64); std::vector<q> E0, E1, N0, N1; bool good = true;
  for (int k = 0; k < nf; k++) {
    std::vector<q> cl(R.nbf), cb = best(R, t, [&](q r) { return K.u(F[k], r); }); for (int i = 0; i < R.nbf; i++) cl[i] = nao.coeffs()(i, k);
    q l0, l1, b0, b1; residual(R, t, K, F[k], cl, l0, l1); residual(R, t, K, F[k], cb, b0, b1); q n0 = sqrtq(K.integral(F[k], F[k], 0, 0)), n1 = sqrtq(K.integral(F[k], F[k], 1, 0));
    c.m.small("nao.best_approximation", (long double)l0, (long double)(3 * b0 + 1e-12Q * n0 * nnodes), vf::fmt("residual=%.3Lg best=%.3Lg norm=%.3Lg", (long double)l0, (long double)b0, (long double)n0));
    E0.push_back(l0); E1.push_back(l1); N0.push_back(n0); N1.push_back(n1); if (b0 > 1e-6Q * n0) good = false;
    if (dflt && spread == 1) c.m.small("nao.faithful", (long double)(l0 / n0), 1e-9L, vf::fmt("deriv residual %.3Lg of %.3Lg", (long double)l1, (long double)n1));
  }
  c.m.event(good ? "resolved projection" : "coarse projection");
  Matrix S = nao.overlap(), T = nao.kinetic(), Tl = nao.kinetic_l(), V = nao.nuclear();
  for (int i = 0; i < nf; i++) for (int j = 0; j < nf; j++) {
    q ep = 1e-12Q * nnodes, hard0 = N0[i] * E0[j] + N0[j] * E0[i] + E0[i] * E0[j], hard1 = N1[i] * E1[j] + N1[j] * E1[i] + E1[i] * E1[j], mix = 2 * (N0[i] * E1[j] + N0[j] * E1[i] + E0[i] * E1[j]);
    auto cmp = [&](const char *key, double v, q r, q bound, q sc) { c.m.small(key, (long double)fabsq((q)v - r), (long double)(bound * 1.01Q + ep * sc), vf::fmt("(%d,%d) got=%.17g ref=%.17g", i, j, v, (double)r)); };
    cmp("nao.overlap", S(i, j), K.integral(F[i], F[j], 0, 0), hard0, N0[i] * N0[j]); cmp("nao.kinetic", T(i, j), K.integral(F[i], F[j], 1, 0) / 2, hard1 / 2, N1[i] * N1[j]);
    cmp("nao.kinetic_l", Tl(i, j), K.integral(F[i], F[j], 0, -2) / 2, 2 * hard1, 2 * N1[i] * N1[j]); cmp("nao.nuclear", V(i, j), -K.integral(F[i], F[j], 0, -1), mix, 2 * N0[i] * N1[j]);
  }
  // pointwise: the value of R = u/r differs by no more than the residual allows: |e(r)/r| <= |e'| / sqrt(r)
  Matrix I = Matrix::Identity(nf, nf);
  for (int k = 0; k < 6; k++) {
    double r = k == 0 ? bv(g.integer(1, bv.size() - 1)) : k == 1 ? bv(bv.size() - 1) * 1.5 : g.loguniform(bv(1) * 1e-3, bv(bv.size() - 1)); Vector v = nao.eval_orbs(I, r);
    for (int i = 0; i < nf; i++) c.m.small("nao.value", (long double)fabsq((q)v(i) - K.u(F[i], r) / (q)r), (long double)(1.01Q * E1[i] / sqrtq(r) + 1e-12Q * nnodes * N1[i] / sqrtq(r)), vf::fmt("r=%.17g", r));
  }
}
}  // namespace

VF_SECTION("gaussian_projection") { for (int i = 0; i < c.n(40, 500); i++) project(c, 2); }
VF_SECTION("slater_projection") { for (int i = 0; i < c.n(40, 500); i++) project(c, 1); }

// closed forms of the radial orbitals
VF_SECTION("primitives") {
  auto &g = c.rng;
  for (int it = 0; it < c.n(300, 4000); it++) {
    int l = g.integer(0, 12), na = g.integer(1, 5), nr = g.integer(1, 5); Vector al(na), r(nr); for (int i = 0; i < na; i++) al(i) = g.loguniform(1e-4, 1e6);
    bool gto = g.coin(); Kind K{gto ? 2 : 1}; for (int i = 0; i < nr; i++) r(i) = g.coin(0.1) ? 0 : g.uniform(0.01, 12) * (gto ? 1 / std::sqrt(al(0)) : 1 / al(0));
    c.m.begin(vf::fmt("%s l=%d alpha0=%.10g", gto ? "GTO" : "STO", l, al(0)));
    Matrix M = gto ? lcao::radial_GTO(r, l, al) : lcao::radial_STO(r, l, al);
    if (!c.m.require("prim.shape", M.rows() == nr && M.cols() == na)) continue;
    for (int i = 0; i < nr; i++) for (int j = 0; j < na; j++) {
      q N = K.N({l + 1, al(j)}), ex = (q)al(j) * (gto ? (q)r(i) * (q)r(i) : (q)r(i)), v = N * (l == 0 ? (q)1 : powq(r(i), l)) * expq(-ex); double s = gto ? lcao::radial_GTO(r(i), l, al(j)) : lcao::radial_STO(r(i), l, al(j));
      c.m.require("prim.overload", s == M(i, j) || (std::isnan(s) && std::isnan(M(i, j)))); c.m.small("prim.value", (long double)fabsq((q)s - v), (long double)(2e-15Q * (8 + l + fabsq(ex)) * fabsq(v) + 1e-300Q), vf::fmt("r=%.17g alpha=%.17g got=%.17g ref=%.17g", r(i), al(j), s, (double)v));
      // the contraction headers' primitives
      double h = gto ? detail_gto::eval_u({{{l, al(j)}}, Vector::Ones(1)}, r(i)) : detail_sto::eval_u({{{l + 1, al(j)}}, Vector::Ones(1)}, r(i));
      c.m.small("prim.u", (long double)fabsq((q)h - v * (q)r(i)), (long double)(2e-15Q * (8 + 2 * l + fabsq(ex)) * fabsq(v * (q)r(i)) + 1e-300Q), vf::fmt("r=%.17g alpha=%.17g", r(i), al(j)));
    }
  }
}

// numerical orbitals over an arbitrary finite element basis
VF_SECTION("numerical") {
  auto &g = c.rng;
  for (int it = 0; it < c.n(60, 600); it++) {
    auto a = vfr::make<double>(g, 4, 6, 2, 20); auto lib = std::make_shared<FEMRadialBasis>(a.lib); int n = a.R.nbf, na = g.integer(1, std::min(n, 4)), nb = g.integer(1, std::min(n, 4)); Matrix Ca(n, na), Cb(n, nb);
    for (int i = 0; i < n; i++) { for (int j = 0; j < na; j++) Ca(i, j) = g.gauss(); for (int j = 0; j < nb; j++) Cb(i, j) = g.gauss(); }
    NAORadialBasis A(lib, Ca), B(lib, Cb); int L = g.integer(0, 4); bool y = g.coin(); double lam = g.loguniform(0.05, 3); c.m.begin(vf::fmt("numerical na=%d nb=%d L=%d %s=%.10g ", na, nb, L, y ? "lambda" : "coulomb", lam) + a.desc);
    c.m.require("num.count", (int)A.Nbf() == na && A.coeffs() == Ca && &A.underlying() == lib.get());
    auto sand = [&](const Matrix &M) { return Matrix(Ca.transpose() * M * Ca); }; auto same = [&](const char *k, const Matrix &X, const Matrix &Y) { c.m.small(k, X.rows() == Y.rows() && X.cols() == Y.cols() ? (X - Y).cwiseAbs().maxCoeff() / (1e-300 + Y.cwiseAbs().maxCoeff()) : NAN, 1e-12); };
    same("num.overlap", A.overlap(), sand(lib->overlap())); same("num.kinetic", A.kinetic(), sand(lib->kinetic())); same("num.kinetic_l", A.kinetic_l(), sand(lib->kinetic_l())); same("num.nuclear", A.nuclear(), sand(lib->nuclear()));
    // two-electron: full four-index reference
    Kern k = y ? yuk(L, (q)lam) : coul(L); Ref2e t = build(a.R, k); Matrix D = rnd<double>(g, nb, g.integer(0, 2)); qm P(n, std::vector<q>(n, 0)), J, X;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int u = 0; u < nb; u++) for (int v = 0; v < nb; v++) P[i][j] += (q)Cb(i, u) * (q)D(u, v) * (q)Cb(j, v);
    jk(a.R, t, P, J, X); auto tr = [&](const qm &M) { qm o(na, std::vector<q>(na, 0)); for (int u = 0; u < na; u++) for (int v = 0; v < na; v++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) o[u][v] += (q)Ca(i, u) * M[i][j] * (q)Ca(j, v); return o; };
    auto nrm = [&](const qm &M) { q s = 0; for (auto &r : M) for (q v : r) s = fmaxq(s, fabsq(v)); return s; };
    Matrix lJ = y ? A.coulomb_radial_yukawa(L, lam, B, D) : A.coulomb_radial(L, B, D), lK = y ? A.exchange_radial_yukawa(L, lam, B, D) : A.exchange_radial(L, B, D); q cs = Ca.cwiseAbs().maxCoeff(); cs *= cs * n;
    cmp_matrix<double>(c.m, "num.J", lJ, tr(J), 2e-11L, nrm(J) * cs, 1); cmp_matrix<double>(c.m, "num.K", lK, tr(X), 2e-11L, nrm(X) * cs, 1);
    // orbitals on top of the orbitals
    Matrix O = Matrix(na, 2); for (int i = 0; i < na; i++) for (int j = 0; j < 2; j++) O(i, j) = g.gauss(); double r = g.uniform(0, 1.05 * a.b.back()); Vector v1 = A.eval_orbs(O, r), v2 = lib->eval_orbs(Ca * O, r); c.m.small("num.orbitals", (v1 - v2).cwiseAbs().maxCoeff(), 1e-12 * (1 + v2.cwiseAbs().maxCoeff()));
    // refusals
    auto refuse = [&](const char *w, std::function<void()> f) { std::string s = vf::thrown(f); c.m.require("num.refused", s.rfind("std:", 0) == 0, std::string(w) + " -> " + (s.empty() ? "accepted" : s)); };
    auto other = std::make_shared<FEMRadialBasis>(a.lib); NAORadialBasis Z(other, Cb), N2(std::make_shared<NAORadialBasis>(A), Matrix::Identity(na, na));
    refuse("null basis", [&] { NAORadialBasis x(nullptr, Ca); }); refuse("too few rows", [&] { NAORadialBasis x(lib, Ca.topRows(n - 1)); }); refuse("no columns", [&] { NAORadialBasis x(lib, Matrix(n, 0)); });
    refuse("other underlying", [&] { A.coulomb_radial(L, Z, D); }); refuse("other underlying", [&] { A.exchange_radial(L, Z, D); }); refuse("other underlying", [&] { A.coulomb_radial_yukawa(L, lam, Z, D); }); refuse("other underlying", [&] { A.exchange_radial_yukawa(L, lam, Z, D); });
    refuse("density shape", [&] { A.coulomb_radial(L, B, Matrix::Zero(nb + 1, nb)); }); refuse("density shape", [&] { A.exchange_radial(L, B, Matrix::Zero(nb, nb + 1)); }); refuse("lambda 0", [&] { A.coulomb_radial_yukawa(L, 0.0, B, D); }); refuse("lambda<0", [&] { A.exchange_radial_yukawa(L, -lam, B, D); });
    refuse("orbital rows", [&] { A.eval_orbs(Matrix::Zero(na + 1, 1), 0.1); }); refuse("not finite elements", [&] { N2.coulomb_radial(L, N2, Matrix::Identity(na, na)); });
    same("num.nested", N2.overlap(), A.overlap());
  }
}

VF_SECTION("malformed") {
  auto &g = c.rng;
  for (int it = 0; it < c.n(20, 100); it++) {
    bool gto = g.coin(); double bad = g.pick({0.0, -0.0, -g.loguniform(1e-3, 10), (double)NAN, (double)INFINITY, (double)-INFINITY}); c.m.begin(vf::fmt("%s malformed %d exponent %g", gto ? "GTO" : "STO", it, bad)); int ok = gto ? 0 : 1;
    auto run = [&](const char *w, int n, double a, int nc, bool empty, double tol, int nelem, int nnodes) {
      std::string s = vf::thrown([&] { Vector ct = Vector::Ones(nc); if (gto) { std::vector<GTOContracted> B; if (!empty) B.push_back({{{n, a}}, ct}); make_nao_gto(B, tol, nelem, nnodes); } else { std::vector<STOContracted> B; if (!empty) B.push_back({{{n, a}}, ct}); make_nao_sto(B, tol, nelem, nnodes); } });
      c.m.require("malformed.refused", s.rfind("std:", 0) == 0, std::string(w) + " -> " + (s.empty() ? "accepted" : s));
    };
    run("exponent", ok, bad, 1, false, 1e-10, 8, 8); run("power", gto ? -1 : 0, 1.0, 1, false, 1e-10, 8, 8); run("contraction", ok, 1.0, g.pick({0, 2}), false, 1e-10, 8, 8); run("empty", ok, 1.0, 1, true, 1e-10, 8, 8);
    if (gto) { std::string s = vf::thrown([&] { make_nao_gto({{{}, Vector()}}); }); c.m.require("malformed.refused", s.rfind("std:", 0) == 0, "no primitives"); }
  }
  if (pbe_ground_states) for (int Z = 1; Z <= 118; Z++) { const int *o = pbe_ground_states[Z - 1]; c.m.begin(vf::fmt("ground state occupation Z=%d", Z)); c.m.require("guess.electrons", o[0] + o[1] + o[2] + o[3] == Z && o[0] >= 0 && o[1] >= 0 && o[2] >= 0 && o[3] >= 0, vf::fmt("%d %d %d %d", o[0], o[1], o[2], o[3])); }
}

// projection of one-centre orbitals onto the diatomic basis
static void probe(vf::Ctx &c) {
  auto &g = c.rng; using namespace helfem::diatomic::twodquad;
  vfd::Opt o; o.lmax = 4; o.fixnq = 60; o.maxel = 3; o.ids = {4, 5}; o.muhi = 3; o.Rh = g.uniform(0.5, 2); auto a = vfd::make(g, o); int i0 = g.integer(0, a.nang() - 1), m = a.m[i0], l = std::abs(m) + g.integer(0, 2), lang = 100;
  probe_t pr = g.pick({PROBE_LEFT, PROBE_MIDDLE, PROBE_RIGHT}); bool gto = pr == PROBE_MIDDLE ? true : g.coin(); int ne = g.integer(1, 3); Vector ex(ne); for (int i = 0; i < ne; i++) ex(i) = gto ? g.uniform(0.1, 1.2) : g.uniform(0.4, 1.8);
  c.m.begin(vf::fmt("diatomic %s at %d l=%d m=%d e0=%.8g ", gto ? "GTO" : "STO", (int)pr, l, m, ex(0)) + a.desc);
  TwoDGrid grid(a.lib.get(), lang); Matrix S = gto ? grid.gto_projection(l, m, ex, pr) : grid.sto_projection(l, m, ex, pr), O = gto ? grid.gto_overlap(l, m, ex, pr) : grid.sto_overlap(l, m, ex, pr);
  if (!c.m.require("dia.shape", S.rows() == ne && S.cols() == a.N() && O.rows() == ne && O.cols() == ne)) return;
  Kind K{gto ? 2 : 1}; q Rh = a.Rh; qm P(ne, std::vector<q>(a.N(), 0)), Q(ne, std::vector<q>(ne, 0)); const auto &gx = ref::gauss(50); const auto &gm = ref::gauss(36); 
  for (int e = 0; e < a.R.nel(); e++) for (size_t k = 0; k < gm.first.size(); k++) {
    q mu = a.R.mid(e) + a.R.half(e) * gm.first[k], sh = sinhq(mu), ch = coshq(mu); auto bf = a.R.eval(e, gm.first[k], 0);
    for (size_t kx = 0; kx < gx.first.size(); kx++) {
      q x = gx.first[kx], z = Rh * ch * x + (pr == PROBE_LEFT ? Rh : pr == PROBE_RIGHT ? -Rh : (q)0), s2 = Rh * Rh * sh * sh * (1 - x * x), r = sqrtq(z * z + s2), ct = pr == PROBE_RIGHT ? -z / r : z / r, th = r > 0 ? ref::theta(l, m, ct) : (q)0;
      q w = gm.second[k] * a.R.half(e) * gx.second[kx] * Rh * Rh * Rh * sh * (sh * sh + 1 - x * x); std::vector<q> f(ne);
      for (int i = 0; i < ne; i++) f[i] = K.N({l + 1, ex(i)}) * (l ? powq(r, l) : (q)1) * expq(-(q)ex(i) * (gto ? r * r : r)) * th;
      for (int i = 0; i < ne; i++) { for (int j = 0; j < ne; j++) Q[i][j] += w * f[i] * f[j];
        for (int b = 0; b < a.nang(); b++) if (a.m[b] == m) { q y = w * f[i] * ref::theta(a.l[b], m, x); for (size_t n = 0; n < bf.size(); n++) { int gl = a.R.glo[e][n] - (m != 0); if (gl >= 0) P[i][a.off[b] + gl] += y * bf[n]; } } }
    }
  }
  q sc = 0; for (auto &v : P) for (q x : v) sc = fmaxq(sc, fabsq(x));
  // the phase of the probe function is a convention: one sign for the whole projection
  q dot = 0; for (int i = 0; i < ne; i++) for (int j = 0; j < a.N(); j++) dot += P[i][j] * (q)S(i, j);
  if (dot < 0) for (auto &v : P) for (q &x : v) x = -x;
  cmp_matrix<double>(c.m, "dia.overlap", O, Q, 2e-9L, 0.05Q, 1); cmp_matrix<double>(c.m, "dia.projection", S, P, 2e-9L, fmaxq(sc, 0.05Q), 1);
}
// orbitals taken from a spherically averaged atom
VF_SECTION("extraction") {
  auto &g = c.rng;
  for (int it = 0; it < c.n(40, 400); it++) {
    auto a = std::make_unique<vfs::SB>(vfs::make(g, 4, 6, 2, 15, 3)); int n = a->R.nbf, nl = a->lmax + 1; Cube C(nl); std::vector<int> keep(nl), got; std::string d;
    for (int l = 0; l < nl; l++) { int nc = g.integer(1, n); C[l] = Matrix(n, nc); for (int i = 0; i < n; i++) for (int j = 0; j < nc; j++) C[l](i, j) = g.gauss(); keep[l] = g.pick({-1, 0, 1, nc, g.integer(0, nc)}); d += vf::fmt("%d/%d ", keep[l], nc); if (keep[l]) got.push_back(l); }
    c.m.begin("extraction keep " + d + a->desc); auto N = sadatom::basis::extract_naos_per_l(a->lib, C, keep); Matrix S = a->lib.get_radial().overlap();
    if (!c.m.require("ext.channels", N.size() == got.size(), vf::fmt("%d channels, expected %d", (int)N.size(), (int)got.size()))) continue;
    for (auto bad : {0, 1, 2}) { auto k = keep; if (bad == 0) k.push_back(1); if (bad == 1) k.pop_back(); if (bad == 2) k[g.integer(0, nl - 1)] = n + 1; std::string s = vf::thrown([&] { sadatom::basis::extract_naos_per_l(a->lib, C, k); }); c.m.require("ext.refused", s.rfind("std:", 0) == 0, vf::fmt("kind %d ", bad) + s); }
    FEMRadialBasis rad = a->lib.get_radial(); a.reset();        // the orbitals outlive the atom they came from
    for (size_t k = 0; k < N.size(); k++) {
      int l = got[k]; Matrix Cl = keep[l] < 0 ? C[l] : Matrix(C[l].leftCols(keep[l])); auto &nb = N[k].second; c.m.require("ext.l", N[k].first == l); c.m.require("ext.coefficients", nb.coeffs().rows() == n && nb.coeffs() == Cl); if (nb.coeffs().rows() != n || nb.coeffs() != Cl) return;
      Matrix R = Cl.transpose() * S * Cl; c.m.small("ext.overlap", (nb.overlap() - R).cwiseAbs().maxCoeff() / R.cwiseAbs().maxCoeff(), 1e-12);
      size_t k2 = g.integer(0, (int)N.size() - 1); auto &ob = N[k2].second; int L = g.integer(0, 3); Matrix D = rnd<double>(g, ob.Nbf(), g.integer(0, 2)), P = ob.coeffs() * D * ob.coeffs().transpose(), J = Cl.transpose() * assemble_J_FE_one_multipole(rad, L, P) * Cl, X = Cl.transpose() * assemble_K_FE_one_multipole(rad, L, P) * Cl;
      std::string s = vf::thrown([&] { Matrix j = nb.coulomb_radial(L, ob, D), x = nb.exchange_radial(L, ob, D); c.m.small("ext.coulomb", (j - J).cwiseAbs().maxCoeff() / (1e-300 + J.cwiseAbs().maxCoeff()), 1e-10); c.m.small("ext.exchange", (x - X).cwiseAbs().maxCoeff() / (1e-300 + X.cwiseAbs().maxCoeff()), 1e-10); });
      c.m.require("ext.channels_combine", s.empty(), s);
    }
  }
}
VF_SECTION("diatomic_projection") { for (int i = 0; i < c.n(24, 250); i++) probe(c); }
VF_MAIN
