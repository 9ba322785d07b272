// a random diatomic two-dimensional basis and its reference twin (prolate spheroidal coordinates)
#pragma once
#include "refatom.h"
#include <diatomic/basis.h>
namespace vfd {
using ref::q;
using helfem::diatomic::basis::TwoDBasis;
inline std::shared_ptr<const helfem::polynomial_basis::PolynomialBasis> poly(int id, int nn) { return make_poly<double>(id, nn); }
struct DB {
  std::shared_ptr<TwoDBasis> lib; ref::FE R; std::vector<double> b; std::vector<int> l, m; int nq, id, nn, Z1, Z2; double Rh; std::string desc;
  std::vector<int> off; int n = 0;        // offsets of the angular blocks in the pure basis
  int nang() const { return (int)l.size(); }
  int nr(int i) const { return R.nbf - (m[i] != 0); }
  int N() const { return n; }
  ref::qmat zero() const { return ref::qmat(n, std::vector<q>(n, 0)); }
  void put(ref::qmat &M, int i, int j, const ref::qmat &r, q f) const {
    if (f == 0) return; int a0 = m[i] != 0, c0 = m[j] != 0;
    for (int a = a0; a < R.nbf; a++) for (int c = c0; c < R.nbf; c++) M[off[i] + a - a0][off[j] + c - c0] += f * r[a][c];
  }
  void index() { off.clear(); n = 0; for (int i = 0; i < nang(); i++) { off.push_back(n); n += nr(i); } }
};
struct Opt { int maxel = 3, maxn = 5, lmax = 3, maxang = 6; double mulo = 1, muhi = 4.5; bool legendre = false, sphere = false; int nel = 0; std::vector<int> ids = {3, 4, 4, 4, 5, 8}; double Rh = 0; int Z1 = -1, Z2 = -1; int fixnq = 0; double mumax = 0; int big = 0, bigel = 20, bignn = 16; };
inline DB finish(DB a, bool leg) {
  Eigen::VectorXi lv(a.nang()), mv(a.nang()); std::string s;
  for (int i = 0; i < a.nang(); i++) { lv(i) = a.l[i]; mv(i) = a.m[i]; s += vf::fmt("%d%+d ", a.l[i], a.m[i]); }
  auto p = poly(a.id, a.nn);
  a.lib = std::make_shared<TwoDBasis>(a.Z1, a.Z2, a.Rh, p, a.nq, to_vec<double>(a.b), lv, mv, leg);
  a.R = ref::FE(); a.R.p = ref_prim<double>(*p, a.id, a.nn); for (double v : a.b) a.R.b.push_back(v);
  a.R.setup(false, false, true, true); a.index();
  a.desc = vf::fmt("id=%d nodes=%d nq=%d Z1=%d Z2=%d Rhalf=%.17g b=[", a.id, a.nn, a.nq, a.Z1, a.Z2, a.Rh) + bstr(a.b) + "] lm=" + s;
  return a;
}
inline DB make(vf::Rng &g, const Opt &o) {
  DB a; a.id = g.pick(o.ids);
  a.nn = a.id == 8 ? g.integer(2, std::min(o.maxn, 3)) : a.id == 5 ? g.integer(2, std::min(o.maxn, 4)) : g.integer(3, o.maxn);
  int nel = o.nel ? o.nel : g.integer(1, o.maxel); if (nel == 1 && a.nn < 4 && !o.nel) nel = 2;
  if (o.big == 1) { nel = g.integer(std::min(8, o.bigel), o.bigel); if (a.nn > 4) a.nn = 4; }
  if (o.big == 2) { a.id = g.pick({3, 4, 4}); a.nn = g.integer(8, o.bignn); nel = g.integer(1, 2); }
  a.b = random_bval(g, nel, 0.0, o.mumax > 0 ? o.mumax : g.uniform(o.mulo, o.muhi));
  a.nq = o.fixnq ? o.fixnq : o.big == 2 ? g.integer(4 * a.nn, 120) : g.integer(12, 40);
  if (o.big == 3) vfa::high_angular(g, a.l, a.m, o.lmax); else vfa::random_angular(g, a.l, a.m, g.integer(0, o.lmax), o.maxang, o.sphere);
  a.Z1 = o.Z1 >= 0 ? o.Z1 : g.integer(0, 20); a.Z2 = o.Z2 >= 0 ? o.Z2 : g.coin(0.25) ? a.Z1 : g.integer(0, 20);
  a.Rh = o.Rh > 0 ? o.Rh : g.loguniform(0.1, 6);
  return finish(a, o.legendre);
}
// normalised Theta_lm(nu) and its nu-derivative (ladder relation: exact at the poles)
inline void theta(int l, int m, q x, q &t, q &d) {
  t = ref::theta(l, m, x); q up = m + 1 <= l ? ref::theta(l, m + 1, x) : (q)0, dn = m - 1 >= -l ? ref::theta(l, m - 1, x) : (q)0;
  d = (sqrtq((l - m) * (q)(l + m + 1)) * up - sqrtq((l + m) * (q)(l - m + 1)) * dn) / 2;
}
// matrix of a multiplicative operator f(mu, cos nu) over the volume element, by two-dimensional quadrature
template <class A, class B> ref::qmat volume(const A &a, const B &b, const std::function<ref::qmat(q)> &radial, int deg) {
  int lm = 0; for (int v : a.l) lm = std::max(lm, v); for (int v : b.l) lm = std::max(lm, v);
  const auto &gx = ref::gauss(lm + deg / 2 + 3); ref::qmat M(a.N(), std::vector<q>(b.N(), 0));
  for (size_t k = 0; k < gx.first.size(); k++) {
    q x = gx.first[k]; ref::qmat W = radial(x);
    for (int i = 0; i < a.nang(); i++) for (int j = 0; j < b.nang(); j++) if (a.m[i] == b.m[j]) {
      q f = gx.second[k] * ref::theta(a.l[i], a.m[i], x) * ref::theta(b.l[j], b.m[j], x); int a0 = a.m[i] != 0;
      for (int p = a0; p < a.R.nbf; p++) for (int r = a0; r < b.R.nbf; r++) M[a.off[i] + p - a0][b.off[j] + r - a0] += f * W[p][r];
    }
  }
  return M;
}
inline ref::qmat volume(const DB &a, std::function<q(q, q)> f, int deg, int Q = 34) {
  q Rh = a.Rh; return volume(a, a, [&](q x) { return a.R.matrix(a.R.B(0), a.R.B(0), [&, x](q mu) { q s = sinhq(mu), c = coshq(mu); return Rh * Rh * Rh * s * (c * c - x * x) * f(mu, x); }, Q); }, deg);
}
// kinetic energy as half the integral of the squared gradient
inline ref::qmat kinetic(const DB &a, int Q = 34) {
  q Rh = a.Rh; auto D = a.R.matrix(a.R.B(1), a.R.B(1), [](q mu) { return sinhq(mu); }, Q), P = a.R.matrix(a.R.B(0), a.R.B(0), [](q mu) { return sinhq(mu); }, Q);
  auto ev0 = [&](int e, q x) { auto v = a.R.eval(e, x, 0); if (e == 0) for (size_t k = 0; k < v.size(); k++) if (a.R.glo[0][k] == 0) v[k] = 0; return v; };   // the function alive on the axis never meets m != 0
  auto I = a.R.matrix(ev0, ev0, [](q mu) { return 1 / sinhq(mu); }, Q);
  auto M = a.zero(); int lm = 0; for (int v : a.l) lm = std::max(lm, v); const auto &gx = ref::gauss(lm + 3);
  for (int i = 0; i < a.nang(); i++) for (int j = 0; j < a.nang(); j++) if (a.m[i] == a.m[j]) {
    q tt = 0, dd = 0; int mm = a.m[i];
    for (size_t k = 0; k < gx.first.size(); k++) { q x = gx.first[k], t1, d1, t2, d2; theta(a.l[i], mm, x, t1, d1); theta(a.l[j], mm, x, t2, d2); q w = gx.second[k]; tt += w * t1 * t2; dd += w * (d1 * d2 + mm * mm * t1 * t2 / ((1 - x) * (1 + x))); }
    a.put(M, i, j, D, Rh / 2 * tt); a.put(M, i, j, P, Rh / 2 * dd); if (mm) a.put(M, i, j, I, Rh / 2 * mm * mm * tt);
  }
  return M;
}
}  // namespace vfd
