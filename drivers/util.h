#pragma once
#include "vf.h"
#include "refe.h"
#include <Matrix.h>
#include <PolynomialBasis.h>
#include <helfem.h>
#include <memory>
template <class T> struct Name;
template <> struct Name<double> { static constexpr const char *n = "double"; };
template <> struct Name<long double> { static constexpr const char *n = "long double"; };
template <> struct Name<_Float128> { static constexpr const char *n = "_Float128"; };
template <class T> std::shared_ptr<const helfem::polynomial_basis::PolynomialBasisT<T>> make_poly(int id, int n) {
  if constexpr (std::is_same_v<T, double>) return std::shared_ptr<const helfem::polynomial_basis::PolynomialBasisT<T>>(helfem::polynomial_basis::get_basis(id, n));
  else return std::shared_ptr<const helfem::polynomial_basis::PolynomialBasisT<T>>(helfem::polynomial_basis::get_basis_T<T>(id, n));
}
template <class T> ref::Prim ref_prim(const helfem::polynomial_basis::PolynomialBasisT<T> &b, int id, int n) {
  ref::Prim p; p.nn = n; p.id = id;
  if (id != 3) { helfem::Vec<T> x = b.get_nodes(); for (int i = 0; i < x.size(); i++) p.x0.push_back((ref::q)x(i)); }
  return p;
}
// random element boundaries from 0 (or start) to rmax
inline std::vector<double> random_bval(vf::Rng &g, int nel, double lo, double hi) {
  std::vector<double> b{lo};
  int kind = g.integer(0, 2);
  for (int i = 1; i < nel; i++) {
    double t = (double)i / nel;
    if (kind == 0) t += g.uniform(-0.35, 0.35) / nel;
    else if (kind == 1) t = t * t; else t = (std::exp(2.5 * t) - 1) / (std::exp(2.5) - 1);
    b.push_back(lo + (hi - lo) * t);
  }
  b.push_back(hi);
  return b;
}
template <class T> helfem::Vec<T> to_vec(const std::vector<double> &b) { helfem::Vec<T> v(b.size()); for (size_t i = 0; i < b.size(); i++) v(i) = (T)b[i]; return v; }
inline std::string bstr(const std::vector<double> &b) { std::string s; for (double v : b) s += vf::fmt("%.6g,", v); if (s.size()) s.pop_back(); return s; }
// compare a library matrix against a reference; tolerance is relative to the largest element
template <class T> bool cmp_matrix(vf::Mon &m, const std::string &key, const helfem::Mat<T> &M, const ref::qmat &R, long double neps, ref::q scale = 0, ref::q eps = 0, const std::string &extra = "") {
  int n = (int)R.size(), k = n ? (int)R[0].size() : 0;
  if (!m.require(key + ".shape", M.rows() == n && M.cols() == k, vf::fmt("%dx%d expected %dx%d %s", (int)M.rows(), (int)M.cols(), n, k, extra.c_str()))) return false;
  if (eps == 0) eps = (ref::q)std::numeric_limits<T>::epsilon();
  ref::q sc = scale;
  for (auto &r : R) for (auto v : r) if (fabsq(v) > sc) sc = fabsq(v);
  if (sc == 0) sc = 1;
  ref::q worst = 0; int wi = 0, wj = 0; bool nan = false;
  for (int i = 0; i < n; i++) for (int j = 0; j < k; j++) {
    ref::q d = fabsq((ref::q)M(i, j) - R[i][j]);
    if (!(d <= worst)) { worst = d; wi = i; wj = j; if (d != d) { nan = true; break; } }
  }
  std::string ex = n && k ? vf::fmt("(%d,%d) got=%.17Lg ref=%.17Lg ", wi, wj, (long double)M(wi, wj), (long double)R[wi][wj]) + extra : extra;
  return m.small(key, nan ? NAN : (long double)(worst / (eps * sc)), neps, ex);
}
