// a random atomic two-dimensional basis and its reference twin
#pragma once
#include "ref2e.h"
#include <atomic/TwoDBasis.h>
namespace vfa {
using ref::q;
using helfem::atomic::basis::TwoDBasisT;
// angular integral int Y*_{l1 m1} f(cos) Y_{l2 m2} dOmega, f of polynomial degree deg
inline q ang(int l1, int m1, int l2, int m2, int deg, std::function<q(q)> f) {
  if (m1 != m2) return 0;
  const auto &g = ref::gauss((l1 + l2 + deg) / 2 + 2); q s = 0;
  for (size_t i = 0; i < g.first.size(); i++) s += g.second[i] * f(g.first[i]) * ref::theta(l1, m1, g.first[i]) * ref::theta(l2, m2, g.first[i]);
  return s;
}
template <class T> struct AB {
  TwoDBasisT<T> lib; ref::FE R; std::vector<double> b; std::vector<int> l, m; int nq, id, nn, Z, Zl, Zr; T Rh; bool zd; std::string desc;
  int nang() const { return (int)l.size(); }
  int N() const { return nang() * R.nbf; }
  ref::qmat zero() const { return ref::qmat(N(), std::vector<q>(N(), 0)); }
  void put(ref::qmat &M, int i, int j, const ref::qmat &r, q f) const { if (f == 0) return; for (int a = 0; a < R.nbf; a++) for (int c = 0; c < R.nbf; c++) M[i * R.nbf + a][j * R.nbf + c] += f * r[a][c]; }
};
struct Opt { int maxel = 4, maxn = 5, lmax = 3, maxang = 8; double rlo = 0.5, rhi = 40; bool offc = false, sphere = false; int nucmodel = 0; double Rrms = 0; int Z = -1; int fixnq = 0; int big = 0; int bigel = 30, bignn = 16; };   // big: 1 many elements, 2 production-size order, 3 high angular momentum
inline void random_angular(vf::Rng &g, std::vector<int> &l, std::vector<int> &m, int lmax, int maxang, bool full) {
  l.clear(); m.clear(); std::vector<std::pair<int, int>> all;
  for (int L = 0; L <= lmax; L++) for (int M = -L; M <= L; M++) all.push_back({L, M});
  if (full) { for (auto &p : all) { l.push_back(p.first); m.push_back(p.second); } return; }
  for (size_t i = all.size(); i > 1; i--) std::swap(all[i - 1], all[g.integer(0, (int)i - 1)]);
  int n = g.integer(1, std::min<int>(maxang, all.size()));
  for (int i = 0; i < n; i++) { l.push_back(all[i].first); m.push_back(all[i].second); }
}
// few functions of high angular momentum, some sharing l or m
inline void high_angular(vf::Rng &g, std::vector<int> &l, std::vector<int> &m, int lmax) {
  l.clear(); m.clear(); int L = g.integer(5, lmax), n = g.integer(2, 4);
  for (int k = 0; k < 40 && (int)l.size() < n; k++) { int ll = std::max(0, L - g.integer(0, 3)), mm = l.empty() || g.coin(0.3) ? g.integer(-ll, ll) : m[0]; if (std::abs(mm) > ll) continue; bool dup = false; for (size_t i = 0; i < l.size(); i++) dup |= l[i] == ll && m[i] == mm; if (!dup) { l.push_back(ll); m.push_back(mm); } }
}
template <class T> AB<T> make(vf::Rng &g, const Opt &o) {
  AB<T> a; a.id = g.pick({3, 4, 4, 4, 5, 8});
  a.nn = a.id == 8 ? g.integer(2, std::min(o.maxn, 3)) : a.id == 5 ? g.integer(2, std::min(o.maxn, 4)) : g.integer(3, o.maxn);
  int nel = g.integer(o.offc ? 2 : 1, o.maxel); if (nel == 1 && a.nn < 4) nel = 2;
  if (o.big == 1) { nel = g.integer(10, o.bigel); if (a.nn > 4) a.nn = 4; }
  if (o.big == 2) { a.id = g.pick({3, 4, 4}); a.nn = g.integer(8, o.bignn); nel = g.integer(o.offc ? 2 : 1, 2); }
  a.b = random_bval(g, nel, 0.0, g.loguniform(o.rlo, o.rhi));
  a.zd = a.id == 5 || a.id == 8 ? g.coin() : false; a.nq = o.fixnq ? o.fixnq : o.big == 2 ? g.integer(4 * a.nn, 120) : g.integer(12, 30);
  if (o.big == 3) high_angular(g, a.l, a.m, o.lmax); else random_angular(g, a.l, a.m, g.integer(0, o.lmax), o.maxang, o.sphere);
  auto poly = make_poly<T>(a.id, a.nn);
  a.Z = o.Z >= 0 ? o.Z : g.integer(0, 20); a.Zl = a.Zr = 0; a.Rh = T(0);
  if (o.offc) { a.Zl = g.integer(0, 9); a.Zr = g.integer(0, 9); a.Rh = (T)a.b[g.integer(1, nel - 1)]; }
  Eigen::VectorXi lv(a.nang()), mv(a.nang()); std::string s;
  for (int i = 0; i < a.nang(); i++) { lv(i) = a.l[i]; mv(i) = a.m[i]; s += vf::fmt("%d%+d ", a.l[i], a.m[i]); }
  a.lib = TwoDBasisT<T>(a.Z, (helfem::modelpotential::nuclear_model_t)o.nucmodel, (T)o.Rrms, poly, a.zd, a.nq, to_vec<T>(a.b), lv, mv, a.Zl, a.Zr, a.Rh);
  a.R.p = ref_prim<T>(*poly, a.id, a.nn); for (double v : a.b) a.R.b.push_back(v);
  a.R.setup(true, false, true, a.zd);
  a.desc = vf::fmt("T=%s id=%d nodes=%d nq=%d zd=%d Z=%d Zl=%d Zr=%d Rh=%.6g b=[", Name<T>::n, a.id, a.nn, a.nq, a.zd, a.Z, a.Zl, a.Zr, (double)a.Rh) + bstr(a.b) + "] lm=" + s;
  return a;
}
}  // namespace vfa
