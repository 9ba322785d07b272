// P02: primitive polynomial bases against their defining interpolation conditions
#include "vf.h"
#include "refpoly.h"
#include <Matrix.h>
#include <PolynomialBasis.h>
#include <lobatto.h>
#include <memory>
#include <helfem.h>
using namespace helfem;
using ref::q;
template <class T> struct Name;
template <> struct Name<double> { static constexpr const char *n = "double"; };
template <> struct Name<long double> { static constexpr const char *n = "long double"; };
template <> struct Name<_Float128> { static constexpr const char *n = "_Float128"; };

template <class T> std::shared_ptr<polynomial_basis::PolynomialBasisT<T>> make(int id, int n);
template <> std::shared_ptr<polynomial_basis::PolynomialBasisT<double>> make<double>(int id, int n) {
  return std::shared_ptr<polynomial_basis::PolynomialBasisT<double>>(polynomial_basis::get_basis(id, n));
}
template <class T> std::shared_ptr<polynomial_basis::PolynomialBasisT<T>> make(int id, int n) {
  return std::shared_ptr<polynomial_basis::PolynomialBasisT<T>>(polynomial_basis::get_basis_T<T>(id, n));
}

template <class T> ref::Prim reference(const polynomial_basis::PolynomialBasisT<T> &b, int id, int n) {
  ref::Prim p; p.nn = n;
  p.id = id == 100 ? 4 : id == 101 ? 5 : id;
  if (id != 3) { Vec<T> x = b.get_nodes(); for (int i = 0; i < x.size(); i++) p.x0.push_back((q)x(i)); }
  return p;
}
// cancellation inside the closed-form Hermite coefficients: L_i'(x_i) ~ n^2/4 at the ends
static long double cond(const ref::Prim &p) { return powl(std::max(1.0L, p.nn * p.nn / 4.0L), p.per() - 1); }
static int maxder(int id) { return id == 3 ? 2 : (id == 8 || id == 9) ? 5 : 20; }

template <class T> void basis_case(vf::Ctx &c, int id, int n, int ndermax, int npts) {
  const q eps = (q)std::numeric_limits<T>::epsilon();
  auto b = make<T>(id, n);
  auto p = reference<T>(*b, id, n);
  q e = c.rng.coin(0.3) ? 1 : (q)c.rng.loguniform(1e-3, 50);
  T eT = (T)e; e = (q)eT;
  c.m.begin(vf::fmt("basis id=%d nodes=%d T=%s halflength=%.5g", id, n, Name<T>::n, (double)eT));
  c.m.require("poly.counts", b->get_nprim() == p.nprim() && b->get_nbf() == p.nprim() && b->get_noverlap() == p.per() && b->get_nnodes() == n,
              vf::fmt("nprim=%d nbf=%d noverlap=%d nnodes=%d", b->get_nprim(), b->get_nbf(), b->get_noverlap(), b->get_nnodes()));
  c.m.require("poly.id", b->get_id() == p.id, vf::fmt("%d", b->get_id()));
  if (id != 3) {
    if (!c.m.require("poly.node_count", (int)p.x0.size() == n)) return;
    c.m.require("poly.nodes_span_element", p.x0[0] == -1 && p.x0[n - 1] == 1);
    Vec<T> lx, lw; lobatto::lobatto_compute<T>(n, lx, lw);
    for (int i = 0; i < n; i++) {
      q want = id >= 100 ? cosq(M_PIq * (n - 1 - i) / (n - 1)) : (q)lx(i);
      c.m.small("poly.node_positions", (long double)((p.x0[i] - want) / eps), 8, vf::fmt("i=%d", i));
    }
  }
  // sample points: ends, nodes, random
  std::vector<T> xs{T(-1), T(1), T(0)};
  if (id != 3) xs.push_back((T)p.x0[c.rng.integer(0, n - 1)]);
  for (int k = 0; k < npts; k++) xs.push_back((T)c.rng.uniform(-1, 1));
  Vec<T> x(xs.size());
  for (size_t i = 0; i < xs.size(); i++) x(i) = xs[i];
  int D = std::min(ndermax, maxder(id));
  for (int nd = 0; nd <= D; nd++) {
    Mat<T> f = b->eval_dnf(x, nd, eT), f2;
    b->eval_dnf(x, f2, nd, eT);
    c.m.require("poly.overloads_agree", f.rows() == f2.rows() && f.cols() == f2.cols() && (f - f2).norm() == T(0));
    if (!c.m.require("poly.shape", f.rows() == x.size() && f.cols() == p.nprim())) return;
    for (int j = 0; j < f.cols(); j++) {
      q scale = 0; std::vector<q> r(x.size());
      for (int i = 0; i < x.size(); i++) { r[i] = p.dn(j, (q)x(i), nd, e); scale = std::max(scale, fabsq(r[i])); }
      // conditioning of a degree-D polynomial's derivative in the node basis
      q floor_ = powq(e, p.id == 3 || p.per() == 1 ? 0 : j % p.per()) / powq(e, nd) * powq((q)n, 2 * nd) * 0.01Q;
      scale = std::max(scale, floor_);
      for (int i = 0; i < x.size(); i++)
        c.m.small("poly.value_and_derivatives", (long double)(((q)f(i, j) - r[i]) / (eps * scale)), 2e3L * n * (1 + nd) * cond(p),
                  vf::fmt("der=%d func=%d x=%.6g", nd, j, (double)x(i)));
    }
  }
  // cardinality at the nodes as the user sees it (value/derivatives 0 or 1)
  if (id != 3 && n <= 12) {
    Vec<T> xn(n); for (int i = 0; i < n; i++) xn(i) = (T)p.x0[i];
    for (int d = 0; d < p.per(); d++) {
      Mat<T> f = b->eval_dnf(xn, d, eT);
      for (int i = 0; i < n; i++) for (int j = 0; j < f.cols(); j++) {
        q want = (j == i * p.per() + d) ? 1 : 0;
        q sc = powq(e, (j % p.per()) - d) * powq((q)n, 2 * d);
        c.m.small("poly.cardinality", (long double)(((q)f(i, j) - want) / (eps * std::max(sc, (q)1))), 2e3L * n * cond(p), vf::fmt("der=%d node=%d func=%d", d, i, j));
      }
    }
  }
  // completeness: the basis reproduces every polynomial of its degree
  {
    int deg = c.rng.integer(0, p.degree());
    if (id == 3) deg = std::min(deg, n - 1);
    Vec<T> coef = Vec<T>::Zero(p.nprim());
    auto mono = [&](q y, int d) { q v = 1; for (int m = 0; m < d; m++) v *= (deg - m); return d > deg ? (q)0 : v * powq(y, deg - d); };
    if (id != 3) {
      for (int i = 0; i < n; i++) for (int d = 0; d < p.per(); d++) coef(i * p.per() + d) = (T)(mono(p.x0[i], d) / powq(e, d));
      Mat<T> f = b->eval_dnf(x, 0, eT);
      for (int i = 0; i < x.size(); i++) {
        q s = 0; for (int j = 0; j < f.cols(); j++) s += (q)f(i, j) * (q)coef(j);
        c.m.small("poly.completeness", (long double)((s - mono((q)x(i), 0)) / eps), 4e4L * n * n * cond(p), vf::fmt("deg=%d x=%g", deg, (double)x(i)));
      }
    }
  }
}

template <class T> void over_r_case(vf::Ctx &c, int id, int n) {
  const q eps = (q)std::numeric_limits<T>::epsilon();
  auto b = make<T>(id, n);
  auto p = reference<T>(*b, id, n);
  b->drop_first(true, false);
  bool last = c.rng.coin(); bool lastd = c.rng.coin();
  if (last && b->get_nbf() > 1 && n > 2) b->drop_last(true, lastd); else last = false;
  T eT = (T)c.rng.loguniform(1e-3, 20); q e = (q)eT;
  c.m.begin(vf::fmt("over_r id=%d nodes=%d T=%s halflength=%.5g droplast=%d", id, n, Name<T>::n, (double)eT, last ? 1 + lastd : 0));
  IVec en = b->get_enabled();
  std::vector<T> xs{T(-1), T(1)};
  for (int k = 0; k < 5; k++) xs.push_back((T)c.rng.uniform(-1, 1));
  for (int k = 0; k < 5; k++) xs.push_back((T)(-1 + c.rng.loguniform(1e-15, 1)));
  Vec<T> x(xs.size()); for (size_t i = 0; i < xs.size(); i++) x(i) = xs[i];
  for (int nd = 0; nd <= 2; nd++) {
    Mat<T> f = b->eval_over_r(x, nd, eT);
    if (!c.m.require("over_r.shape", f.rows() == x.size() && f.cols() == en.size() && en.size() == b->get_nbf())) return;
    for (int j = 0; j < f.cols(); j++) {
      q scale = 0; std::vector<q> r(x.size());
      for (int i = 0; i < x.size(); i++) { r[i] = p.over_r(en(j), (q)x(i), nd, e); scale = std::max(scale, fabsq(r[i])); }
      q floor_ = powq(e, p.per() == 1 ? 0 : en(j) % p.per()) / powq(e, nd + 1) * powq((q)n, 2 * nd) * 0.01Q;
      scale = std::max(scale, floor_);
      for (int i = 0; i < x.size(); i++)
        c.m.small("over_r.value_and_derivatives", (long double)(((q)f(i, j) - r[i]) / (eps * scale)), 2e3L * n * (1 + nd) * cond(p),
                  vf::fmt("der=%d func=%d x+1=%.4Lg", nd, (int)en(j), (long double)(x(i) + T(1))));
    }
  }
  // without the Dirichlet condition the ratio is singular: it must be refused
  auto b2 = make<T>(id, n);
  c.m.require("over_r.rejects_nonvanishing", !vf::thrown([&] { b2->eval_over_r(x, 0, eT); }).empty());
  c.m.require("over_r.rejects_unsupported_order", !vf::thrown([&] { b->eval_over_r(x, id == 3 || id == 5 || id == 8 || id == 9 ? 40 : 40, eT); }).empty());
}

// drop_first / drop_last keep exactly the functions satisfying the boundary condition
template <class T> void drop_case(vf::Ctx &c, int id, int n, int mask) {
  bool lf = mask & 1, ld = mask & 2, rf = mask & 4, rd = mask & 8;
  auto b = make<T>(id, n);
  int per = b->get_noverlap(), np = b->get_nprim();
  c.m.begin(vf::fmt("drop id=%d nodes=%d T=%s left(func=%d,deriv=%d) right(func=%d,deriv=%d)", id, n, Name<T>::n, lf, ld, rf, rd));
  std::unique_ptr<polynomial_basis::PolynomialBasisT<T>> orig(b->copy());
  b->drop_first(lf, ld);
  b->drop_last(rf, rd);
  std::vector<int> want;
  for (int j = 0; j < np; j++) {
    bool drop = false;
    if (j == 0) drop = lf; else if (j < per) drop = ld;
    int k = j - (np - per);
    if (k == 0) drop = drop || rf; else if (k > 0) drop = drop || rd;
    if (!drop) want.push_back(j);
  }
  IVec en = b->get_enabled();
  bool same = en.size() == (Eigen::Index)want.size() && b->get_nbf() == (int)want.size();
  std::string got;
  for (int j = 0; j < en.size(); j++) { got += std::to_string(en(j)) + " "; if (same && en(j) != want[j]) same = false; }
  c.m.require("drop.keeps_exactly_the_allowed_functions", same, "enabled: " + got);
  if (!same) return;
  Vec<T> x = Vec<T>::LinSpaced(7, T(-1), T(1));
  T e = T(0.75);
  for (int d = 0; d <= 2; d++) {
    Mat<T> f = b->eval_dnf(x, d, e), g = orig->eval_dnf(x, d, e);
    if (!c.m.require("drop.shape", f.cols() == (Eigen::Index)want.size() && g.cols() == np)) return;
    T dev = T(0);
    for (size_t j = 0; j < want.size(); j++) for (int i = 0; i < 7; i++) dev = std::max(dev, (T)std::abs(f(i, j) - g(i, want[j])));
    c.m.small("drop.functions_unchanged", (long double)dev, 0.0L);
    if (d == 0 && lf) for (int j = 0; j < f.cols(); j++) c.m.small("drop.left_value_zero", (long double)f(0, j), 1e-11L);
    if (d == 0 && rf) for (int j = 0; j < f.cols(); j++) c.m.small("drop.right_value_zero", (long double)f(6, j), 1e-11L);
    if (d == 1 && per > 1 && ld) for (int j = 0; j < f.cols(); j++) c.m.small("drop.left_slope_zero", (long double)f(0, j), 1e-8L);
    if (d == 1 && per > 1 && rd) for (int j = 0; j < f.cols(); j++) c.m.small("drop.right_slope_zero", (long double)f(6, j), 1e-8L);
  }
}

template <class T> void sweep(vf::Ctx &c, std::vector<int> ids, int nmax) {
  for (int id : ids) for (int n = 2; n <= nmax; n++) {
    int D = n <= 6 ? 8 : n <= 9 ? 4 : 3;
    basis_case<T>(c, id, n, D, 4);
  }
}
VF_SECTION("double") { sweep<double>(c, {3, 4, 5, 8, 9, 100, 101}, c.n(15, 20)); }
VF_SECTION_WIDE("longdouble") { sweep<long double>(c, {3, 4, 5, 8, 9}, c.n(12, 18)); }
VF_SECTION_WIDE("float128") { sweep<_Float128>(c, {3, 4, 5, 8, 9}, c.n(9, 15)); }
VF_SECTION("high_order") {
  for (int n = 2; n <= c.n(6, 8); n++) basis_case<double>(c, 4, n, 20, 2);
  for (int n = 2; n <= c.n(6, 7); n++) basis_case<double>(c, 5, n, 20, 2);
  for (int n = 2; n <= c.n(5, 6); n++) { basis_case<_Float128>(c, 4, n, 20, 2); basis_case<_Float128>(c, 5, n, 20, 2); }
  for (int id : {3, 4, 5, 8, 9}) {
    auto b = make<double>(id, 4);
    Vec<double> x = Vec<double>::LinSpaced(3, -1, 1);
    c.m.begin(vf::fmt("unsupported derivative order id=%d", id));
    c.m.require("poly.rejects_unsupported_order", !vf::thrown([&] { b->eval_dnf(x, 21, 1.0); }).empty());
    c.m.require("poly.rejects_negative_order", !vf::thrown([&] { b->eval_dnf(x, -1, 1.0); }).empty());
  }
  for (int id : {-1, 0, 1, 2, 6, 7, 10, 11, 12, 50}) {
    c.m.begin(vf::fmt("factory id=%d", id));
    c.m.require("poly.rejects_unknown_family", !vf::thrown([&] { delete polynomial_basis::get_basis(id, 5); }).empty());
    c.m.require("poly.rejects_unknown_family_T", !vf::thrown([&] { delete polynomial_basis::get_basis_T<long double>(id, 5); }).empty());
  }
  for (int id : {3, 4, 5, 8, 9}) for (int n : {1, 0, -2}) {
    c.m.begin(vf::fmt("factory id=%d nodes=%d", id, n));
    c.m.require("poly.rejects_too_few_nodes", !vf::thrown([&] { delete polynomial_basis::get_basis(id, n); }).empty());
    c.m.require("poly.rejects_too_few_nodes_T", !vf::thrown([&] { delete polynomial_basis::get_basis_T<double>(id, n); }).empty());
  }
  // nodes that do not span the element are refused
  Vec<double> bad(3); bad << -0.9, 0.1, 1.0;
  c.m.begin("LIP nodes not spanning [-1,1]");
  c.m.require("poly.rejects_bad_left_node", !vf::thrown([&] { polynomial_basis::LIPBasis b(bad, 4); }).empty());
  bad << -1, 0.1, 0.9;
  c.m.require("poly.rejects_bad_right_node", !vf::thrown([&] { polynomial_basis::LIPBasis b(bad, 4); }).empty());
  // unsorted nodes give the same basis as sorted ones
  Vec<double> s(4), u(4); s << -1, -0.3, 0.4, 1; u << 0.4, 1, -1, -0.3;
  polynomial_basis::LIPBasis bs(s, 4), bu(u, 4);
  Vec<double> x = Vec<double>::LinSpaced(9, -1, 1);
  c.m.begin("LIP node order");
  c.m.small("poly.node_order_irrelevant", (bs.eval_dnf(x, 1, 1.0) - bu.eval_dnf(x, 1, 1.0)).norm(), 0.0L);
}
VF_SECTION("over_r") {
  for (int rep = 0; rep < c.n(1, 3); rep++)
    for (int id : {3, 4, 5, 8, 9}) for (int n = 2; n <= 15; n++) {
      over_r_case<double>(c, id, n);
      over_r_case<long double>(c, id, n);
      if (n <= 8) over_r_case<_Float128>(c, id, n);
    }
}
VF_SECTION("drop") {
  for (int id : {3, 4, 5, 8, 9}) for (int n : {2, 3, 4, 7}) for (int mask = 0; mask < 16; mask++) {
    if (id == 3 || id == 4) { if (n == 2 && (mask & 5) == 5) continue; }
    else if (n == 2 && mask == 15) continue;
    drop_case<double>(c, id, n, mask);
    if (n == 4) { drop_case<long double>(c, id, n, mask); drop_case<_Float128>(c, id, n, mask); }
  }
}
VF_MAIN
