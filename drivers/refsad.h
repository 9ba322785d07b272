// a random spherically averaged basis, its reference twin, and physically shaped densities
#pragma once
#include "ref2e.h"
#include <sadatom/basis.h>
#include <Eigen/Eigenvalues>
namespace vfs {
using ref::q; using helfem::Matrix; using helfem::Vector; using helfem::Cube;
struct SB { helfem::sadatom::basis::TwoDBasis lib; ref::FE R; std::vector<double> b; int nq, id, nn, Z, lmax; bool zd, zr; std::string desc; };
inline SB make(vf::Rng &g, int maxel, int maxn, double rlo, double rhi, int lmaxmax, bool physical = false, bool zright = true) {
  SB a; a.id = g.pick({3, 4, 4, 4, 5, 8}); a.nn = a.id == 8 ? g.integer(2, std::min(maxn, 3)) : a.id == 5 ? g.integer(2, std::min(maxn, 4)) : g.integer(3, maxn);
  int nel = g.integer(physical ? 3 : 1, maxel); if (nel == 1 && a.nn < 4) nel = 2;
  int sz = physical ? 0 : vfr::size_mode(); if (sz == 1) { nel = g.integer(10, 20); if (a.nn > 4) a.nn = 4; } if (sz == 2) { a.id = g.pick({3, 4, 4}); a.nn = g.integer(8, maxn > 5 ? 15 : 10); nel = g.integer(1, 2); }
  a.b = random_bval(g, nel, 0.0, g.loguniform(rlo, rhi));
  if (physical) { a.nn = a.id == 8 ? 3 : a.id == 5 ? g.integer(4, 6) : g.integer(7, 12); double z = g.uniform(1.5, 2.5), R = a.b.back(); for (int i = 0; i <= nel; i++) a.b[i] = i == nel ? R : (std::exp(std::pow(std::log(R + 1), z) == 0 ? 0 : std::log(R + 1) * std::pow((double)i / nel, 1 / z * 1.4)) - 1); }
  a.zd = a.id == 5 || a.id == 8 ? g.coin() : false; a.zr = zright; if (!zright) a.zd = false; a.nq = physical || sz == 2 ? 4 * a.nn + g.integer(0, 10) : g.integer(12, 30); a.lmax = g.integer(0, lmaxmax); a.Z = g.integer(1, 20);
  auto poly = make_poly<double>(a.id, a.nn);
  a.lib = helfem::sadatom::basis::TwoDBasis(a.Z, helfem::modelpotential::POINT_NUCLEUS, 0.0, poly, a.zd, a.nq, to_vec<double>(a.b), a.lmax, a.zr);
  a.R.p = ref_prim<double>(*poly, a.id, a.nn); for (double v : a.b) a.R.b.push_back(v); a.R.setup(true, false, a.zr, a.zd);
  a.desc = vf::fmt("id=%d nodes=%d nq=%d zd=%d zr=%d Z=%d lmax=%d b=[", a.id, a.nn, a.nq, a.zd, a.zr, a.Z, a.lmax) + bstr(a.b) + "]"; return a;
}
// shell densities (summed over m) of hydrogen-like orbitals with charge Zeff in this basis
inline Cube shell_densities(vf::Rng &g, const SB &a, double Zeff, bool fractional) {
  Matrix S = a.lib.overlap(), T = a.lib.kinetic(), Tl = a.lib.kinetic_l(), V = a.lib.nuclear() * (Zeff / a.Z); Cube P(a.lmax + 1, Matrix::Zero(S.rows(), S.cols()));
  for (int l = 0; l <= a.lmax; l++) { Eigen::GeneralizedSelfAdjointEigenSolver<Matrix> es(T + l * (l + 1) * Tl + V, S); int no = std::min<int>(g.integer(l ? 0 : 1, 3 - std::min(l, 2)), S.rows()); for (int i = 0; i < no; i++) { double f = fractional ? g.uniform(0.1, 2.0 * (2 * l + 1)) : 2.0 * (2 * l + 1); P[l] += f * es.eigenvectors().col(i) * es.eigenvectors().col(i).transpose(); } }
  return P;
}
inline Matrix total(const Cube &P) { Matrix t = P[0]; for (size_t l = 1; l < P.size(); l++) t += P[l]; return t; }
// pointwise reference of sum_ij P_ij d^a R_i d^b R_j and the matching magnitude
inline q form(const SB &a, int e, q x, const Matrix &P, int da, int db, q *mag = nullptr) {
  auto u = a.R.evalR(e, x, da), v = a.R.evalR(e, x, db); q s = 0, m = 0; auto &G = a.R.glo[e];
  for (size_t i = 0; i < u.size(); i++) for (size_t j = 0; j < v.size(); j++) { q t = (q)P(G[i], G[j]) * u[i] * v[j]; s += t; m += fabsq(t); }
  if (mag) *mag = m; return s;
}
inline q form_u(const SB &a, int e, q x, const Matrix &P) { auto u = a.R.eval(e, x, 0); q s = 0; auto &G = a.R.glo[e]; for (size_t i = 0; i < u.size(); i++) for (size_t j = 0; j < u.size(); j++) s += (q)P(G[i], G[j]) * u[i] * u[j]; return s; }
// int_{rlo}^{rhi} n(r) r^(2+pow) dr
inline q charge(const SB &a, const Matrix &P, q rlo, q rhi, int pow = 0) {
  q s = 0; for (int e = 0; e < a.R.nel(); e++) { q lo = std::max(rlo, a.R.b[e]), hi = std::min(rhi, a.R.b[e + 1]); if (!(hi > lo)) continue; std::vector<q> pts{lo}; for (q t = (lo > 0 ? lo : hi / 1024) * 2; pow && t < hi; t *= 2) pts.push_back(t); pts.push_back(hi);
    const auto &g = ref::gauss(a.R.p.nprim() + 16); for (size_t k = 0; k + 1 < pts.size(); k++) for (size_t i = 0; i < g.first.size(); i++) { q h = (pts[k + 1] - pts[k]) / 2, r = (pts[k] + pts[k + 1]) / 2 + h * g.first[i]; s += h * g.second[i] * form_u(a, e, a.R.xof(e, r), P) * (pow == -1 ? 1 / r : (q)1); } }
  return s;
}
}  // namespace vfs
