// helpers for radial-basis monitors: a library basis and its reference twin
#pragma once
#include "util.h"
#include <RadialBasis.h>
namespace vfr {
using ref::q;
template <class T> struct RB {
  helfem::atomic::basis::FEMRadialBasisT<T> lib;
  ref::FE R;
  std::vector<double> b;
  int id, n, nq;
  std::string desc;
};
// sizes of the bases drawn by make(): 0 small, 1 many elements, 2 production-size order (RAII, one section is one thread)
inline int &size_mode() { static int m = 0; return m; }
struct Big { Big(int m) { size_mode() = m; } ~Big() { size_mode() = 0; } };
// radial basis on [0,rmax] with u(0)=0; deriv flags / family random
template <class T> RB<T> make(vf::Rng &g, int maxel, int maxn, double rlo, double rhi, int id = 0, int nn = 0, bool rightfree = false, double frmax = 0) {
  RB<T> o;
  o.id = id ? id : g.pick({3, 4, 4, 4, 5, 8});
  o.n = nn ? nn : (o.id == 8 ? g.integer(2, std::min(maxn, 4)) : o.id == 5 ? g.integer(2, std::min(maxn, 6)) : g.integer(3, maxn));
  int nel = g.integer(1, maxel);
  if (nel == 1 && o.n < 4) nel = 2;
  if (size_mode() == 1 && !nn) { nel = g.integer(10, 30); if (o.n > 4) o.n = 4; }
  if (size_mode() == 2 && !nn && !id) { o.id = g.pick({3, 4, 4}); o.n = g.integer(8, maxn > 6 ? 15 : 11); nel = g.integer(1, 2); }
  double rmax = frmax ? frmax : g.loguniform(rlo, rhi);
  o.b = random_bval(g, nel, 0.0, rmax);
  bool rf = !rightfree, rd = o.id == 3 || o.id == 4 ? false : g.coin();
  if (rightfree) rd = false;
  o.nq = size_mode() == 2 ? g.integer(4 * o.n, 100) : g.integer(10, 40);
  auto poly = make_poly<T>(o.id, o.n);
  helfem::polynomial_basis::FiniteElementBasisT<T> fe(poly, to_vec<T>(o.b), true, false, rf, rd);
  o.lib = helfem::atomic::basis::FEMRadialBasisT<T>(fe, o.nq);
  o.R.p = ref_prim<T>(*poly, o.id, o.n);
  for (double v : o.b) o.R.b.push_back(v);
  o.R.setup(true, false, rf, rd);
  o.desc = vf::fmt("id=%d nodes=%d T=%s rf=%d rd=%d nquad=%d b=[", o.id, o.n, Name<T>::n, rf, rd, o.nq) + bstr(o.b) + "]";
  return o;
}
// break points that tame an r^-k pole at the origin outside the first element
inline std::vector<q> geo(const ref::FE &R, q first = 0) {
  std::vector<q> v;
  for (int e = 0; e < R.nel(); e++) {
    if (R.b[e] == 0) { if (first > 0) for (q t = R.b[1] / 2; t > first; t /= 2) v.push_back(t); continue; }
    for (q t = R.b[e] * 1.7Q; t < R.b[e + 1]; t *= 1.7Q) v.push_back(t);
  }
  return v;
}
// mixed integrals of two reference spaces
inline ref::qmat cross(const ref::FE &A, const ref::FE &B, int da, int db, std::function<q(q)> f, int n, const std::vector<q> &brk = {}) {
  ref::qmat M(A.nbf, std::vector<q>(B.nbf, 0));
  std::vector<q> pts = A.b; pts.insert(pts.end(), B.b.begin(), B.b.end()); pts.insert(pts.end(), brk.begin(), brk.end());
  std::sort(pts.begin(), pts.end());
  const auto &g = ref::gauss(n);
  for (size_t s = 0; s + 1 < pts.size(); s++) {
    q lo = pts[s], hi = pts[s + 1];
    if (!(hi > lo)) continue;
    q mid = (lo + hi) / 2;
    if (mid < A.b.front() || mid > A.b.back() || mid < B.b.front() || mid > B.b.back()) continue;
    int ea = A.find(mid), eb = B.find(mid);
    for (int i = 0; i < n; i++) {
      q r = mid + (hi - lo) / 2 * g.first[i], w = g.second[i] * (hi - lo) / 2;
      auto L = A.eval(ea, A.xof(ea, r), da), Rr = B.eval(eb, B.xof(eb, r), db);
      q wf = w * (f ? f(r) : (q)1);
      for (size_t a = 0; a < L.size(); a++) for (size_t c = 0; c < Rr.size(); c++) M[A.glo[ea][a]][B.glo[eb][c]] += wf * L[a] * Rr[c];
    }
  }
  return M;
}
inline q bessel_i(int L, q x) {   // sqrt(pi/2x) I_{L+1/2}
  if (fabsq(x) < 1 + L / 2.0Q) {  // series
    q t = powq(x, L) / ref::dfact(2 * L + 1), s = t;
    for (int k = 1; k < 200; k++) { t *= x * x / 2 / (k * (q)(2 * L + 2 * k + 1)); s += t; if (fabsq(t) < 1e-36Q * fabsq(s)) break; }
    return s;
  }
  // downward (Miller) recurrence i_{l-1} = i_{l+1} + (2l+1)/x i_l
  int N = L + 60 + (int)(3 * x);
  q a = 0, b = 1e-300Q * 1e-300Q, val = 0;
  for (int l = N; l >= 1; l--) {
    q c = a + (2 * l + 1) / x * b; a = b; b = c;
    if (l - 1 == L) val = b;
    if (fabsq(b) > 1e2000Q) { a *= 1e-2000Q; b *= 1e-2000Q; val *= 1e-2000Q; }
  }
  if (L == N) val = a;
  return val / b * sinhq(x) / x;
}
inline q bessel_k(int L, q x) {
  q k0 = expq(-x) / x, k1 = k0 * (1 + 1 / x);
  if (L == 0) return k0;
  for (int l = 1; l < L; l++) { q k2 = k0 + (2 * l + 1) / x * k1; k0 = k1; k1 = k2; }
  return k1;
}
template <class T> helfem::Mat<T> element_sum(const RB<T> &o, std::function<helfem::Mat<T>(size_t)> f) {
  helfem::Mat<T> M = helfem::Mat<T>::Zero(o.R.nbf, o.R.nbf);
  for (int e = 0; e < o.R.nel(); e++) {
    size_t a, b; o.lib.get_idx(e, a, b);
    helfem::Mat<T> m = f(e);
    if (m.rows() != (Eigen::Index)(b - a + 1) || m.cols() != (Eigen::Index)(b - a + 1)) { M.setConstant(T(NAN)); return M; }
    M.block(a, a, m.rows(), m.cols()) += m;
  }
  return M;
}
}  // namespace vfr
