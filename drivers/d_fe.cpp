// P03: finite element basis: tiling, indexing, continuity, boundary conditions, element integrals
#include "util.h"
#include <FiniteElementBasis.h>
#include <lobatto.h>
using namespace helfem;
using ref::q;

template <class T> void fe_case(vf::Ctx &c, bool integrals, int big = 0) {
  auto &g = c.rng;
  int id = g.pick({3, 4, 5, 8, 9});
  int n = id == 9 ? g.integer(2, 4) : id == 8 ? g.integer(2, 5) : g.integer(2, 9);
  int mask = g.integer(0, 15);
  bool lf = mask & 1, ld = mask & 2, rf = mask & 4, rd = mask & 8;
  int nel = g.integer(1, 6);
  if (nel == 1 && n == 2) nel = 2;
  if (big == 1) { nel = g.integer(12, 60); n = std::min(n, 4); }                      // many elements
  if (big == 2) { id = g.pick({3, 4, 4}); n = g.integer(10, 16); nel = g.integer(1, 3); }   // production-size order
  bool zero = g.coin(0.6);
  double lo = zero ? 0.0 : g.uniform(-5, 5), hi = lo + g.loguniform(0.3, 60);
  auto bd = random_bval(g, nel, lo, hi);
  c.m.begin(vf::fmt("fe id=%d nodes=%d T=%s bc=%d%d%d%d b=[%s]", id, n, Name<T>::n, lf, ld, rf, rd, bstr(bd).c_str()));
  auto poly = make_poly<T>(id, n);
  polynomial_basis::FiniteElementBasisT<T> fe(poly, to_vec<T>(bd), lf, ld, rf, rd);
  ref::FE R; R.p = ref_prim<T>(*poly, id, n);
  for (double v : bd) R.b.push_back(v);
  R.setup(lf, ld, rf, rd);
  const q eps = (q)std::numeric_limits<T>::epsilon();
  const long double cond = powl(std::max(1.0L, n * n / 4.0L), R.p.per() - 1);

  // --- structure
  if (!c.m.require("fe.nbf", (int)fe.get_nbf() == R.nbf, vf::fmt("%d vs %d", (int)fe.get_nbf(), R.nbf))) return;
  c.m.require("fe.nelem", (int)fe.get_nelem() == nel && fe.get_bval().size() == nel + 1);
  c.m.require("fe.max_nprim", (int)fe.get_max_nprim() == R.p.nprim());
  c.m.require("fe.poly_meta", fe.get_poly_id() == id && fe.get_poly_nnodes() == n && fe.get_poly()->get_nprim() == R.p.nprim());
  std::vector<int> cover(R.nbf, 0);
  for (int e = 0; e < nel; e++) {
    size_t a, b; fe.get_idx(e, a, b);
    std::vector<int> want = R.glo[e];
    bool ok = (int)(b - a + 1) == (int)want.size() && (int)a == want[0] && (int)b == want.back() && (int)fe.get_nprim(e) == (int)want.size();
    for (size_t k = 0; ok && k < want.size(); k++) ok = want[k] == (int)(a + k);
    if (!c.m.require("fe.element_index_range", ok, vf::fmt("e=%d got [%d,%d] nprim=%d", e, (int)a, (int)b, (int)fe.get_nprim(e)))) return;
    for (size_t k = a; k <= b; k++) cover[k]++;
    c.m.require("fe.element_geometry", fe.element_begin(e) == (T)bd[e] && fe.element_end(e) == (T)bd[e + 1] && fe.element_begin(e) < fe.element_end(e));
    c.m.small("fe.length", (long double)(((q)fe.element_length(e) - 2 * R.half(e)) / (eps * (1 + fabsq(R.mid(e)) + R.half(e)))), 4);
    c.m.small("fe.scaling", (long double)(((q)fe.scaling_factor(e) - R.half(e)) / (eps * (1 + fabsq(R.mid(e)) + R.half(e)))), 4);
    c.m.small("fe.midpoint", (long double)(((q)fe.element_midpoint(e) - R.mid(e)) / (eps * (1 + fabsq(R.mid(e)) + R.half(e)))), 4);
  }
  for (int k = 0; k < R.nbf; k++) c.m.require("fe.every_function_used", cover[k] >= 1, vf::fmt("func %d", k));
  c.m.require("fe.rejects_bad_element", !vf::thrown([&] { fe.element_length(nel); }).empty() && !vf::thrown([&] { fe.element_begin(nel); }).empty() && !vf::thrown([&] { fe.element_end(nel + 3); }).empty());
  // --- coordinates
  for (int k = 0; k < 12; k++) {
    T r = k < 6 ? (T)g.uniform(lo, hi) : (T)bd[g.integer(0, nel)];
    size_t e = fe.find_element(r);
    c.m.require("fe.find_element", e < (size_t)nel && fe.element_begin(e) <= r && r <= fe.element_end(e), vf::fmt("r=%.17g e=%d", (double)r, (int)e));
    if (e >= (size_t)nel) continue;
    Vec<T> rv(1); rv(0) = r;
    Vec<T> x = fe.eval_prim(rv, e);
    c.m.require("fe.prim_in_range", x.size() == 1 && x(0) >= T(-1) - T(64) * (T)eps * (T)(1 + fabsq(R.mid(e)) / R.half(e)) && x(0) <= T(1) + T(64) * (T)eps * (T)(1 + fabsq(R.mid(e)) / R.half(e)));
    Vec<T> back = fe.eval_coord(x, e);
    c.m.small("fe.coordinate_round_trip", (long double)(((q)back(0) - (q)r) / (eps * (fabsq(R.mid(e)) + R.half(e)))), 16);
    T xx = (T)g.uniform(-1, 1); Vec<T> xv(1); xv(0) = xx;
    q want = R.mid(e) + R.half(e) * (q)xx;
    c.m.small("fe.coordinate_map", (long double)(((q)fe.eval_coord(xx, e) - want) / (eps * (fabsq(R.mid(e)) + R.half(e)))), 16);
    c.m.require("fe.coordinate_overloads", fe.eval_coord(xv, e)(0) == fe.eval_coord(xx, e));
    Vec<T> bad(1); bad(0) = fe.element_end(e) + (T)1;
    c.m.require("fe.prim_rejects_foreign_point", !vf::thrown([&] { fe.eval_prim(bad, e); }).empty());
  }
  Vec<T> lx, lw; lobatto::lobatto_compute<T>(5, lx, lw);
  Vec<T> all = fe.eval_coord(lx), wall = fe.eval_weights(lw);
  if (c.m.require("fe.grid_shape", all.size() == 5 * nel && wall.size() == 5 * nel)) {
    q sw = 0;
    for (int i = 0; i < 5 * nel; i++) {
      q want = R.mid(i / 5) + R.half(i / 5) * (q)lx(i % 5);
      c.m.small("fe.grid_points", (long double)(((q)all(i) - want) / (eps * (fabsq(R.mid(i / 5)) + R.half(i / 5)))), 16);
      c.m.small("fe.grid_weights", (long double)(((q)wall(i) - R.half(i / 5) * (q)lw(i % 5)) / (eps * (q)wall(i))), 16);
      sw += (q)wall(i);
    }
    c.m.small("fe.weights_sum_to_length", (long double)((sw - ((q)hi - lo)) / (eps * (fabsq((q)hi) + fabsq((q)lo)))), 200);
  }
  // --- values, continuity, boundary conditions
  Vec<T> xs(4); xs << T(-1), T(1), (T)g.uniform(-1, 1), (T)g.uniform(-1, 1);
  int dmax = id == 3 ? 2 : 3;
  for (int d = 0; d <= dmax; d++) {
    Mat<T> full = fe.eval_dnf(xs, d);
    c.m.require("fe.full_eval_shape", full.rows() == 4 * nel && full.cols() == R.nbf);
    for (int e = 0; e < nel; e++) {
      Mat<T> f = fe.eval_dnf(xs, d, e), f2; fe.eval_dnf(xs, f2, d, e);
      c.m.require("fe.eval_overloads", f.rows() == f2.rows() && f.cols() == f2.cols() && (f - f2).norm() == T(0));
      if (!c.m.require("fe.eval_shape", f.rows() == 4 && f.cols() == (int)R.loc[e].size())) return;
      std::vector<q> row(R.nbf);
      for (int i = 0; i < 4; i++) {
        auto v = R.eval(e, (q)xs(i), d);
        std::fill(row.begin(), row.end(), 0);
        for (size_t k = 0; k < v.size(); k++) {
          int der = R.p.per() == 1 ? 0 : R.loc[e][k] % R.p.per();
          q sc = std::max(fabsq(v[k]), powq(R.half(e), der - d) * powq((q)n, 2 * d));
          // element half-length is itself rounded: relative perturbation eps*(|b|/h)
          q pert = 1 + (fabsq(R.mid(e)) + R.half(e)) / R.half(e) * 0.001Q;
          c.m.small("fe.values", (long double)(((q)f(i, k) - v[k]) / (eps * sc * pert)), 4e2L * n * cond, vf::fmt("e=%d k=%d d=%d x=%g", e, (int)k, d, (double)xs(i)));
          row[R.glo[e][k]] = (q)f(i, k);
        }
        for (int k = 0; k < R.nbf; k++) c.m.require("fe.full_eval_placement", (q)full(4 * e + i, k) == row[k], vf::fmt("e=%d point=%d func=%d d=%d", e, i, k, d));
      }
    }
    // continuity of each global function up to order noverlap-1 across element boundaries
    if (d < R.p.per() && !(id == 3 && d > 0))
      for (int e = 0; e + 1 < nel; e++)
        for (int k = 0; k < R.nbf; k++) {
          q jump = (q)full(4 * e + 1, k) - (q)full(4 * (e + 1), k);
          int der = R.p.per(); (void)der;
          q h = std::min(R.half(e), R.half(e + 1)), H = std::max(R.half(e), R.half(e + 1));
          q sc = std::max(powq(h, -d), (q)1) * powq((q)n, 2 * d) * std::max(powq(H, R.p.per() - 1), (q)1);
          c.m.small("fe.continuity", (long double)(jump / (eps * sc)), 4e2L * n * cond, vf::fmt("boundary %d func %d d=%d", e + 1, k, d));
        }
    if (d == 0) for (int k = 0; k < R.nbf; k++) {
      long double tol = 4e2L * n * cond * (long double)eps * std::max(1.0L, powl((long double)R.half(0), R.p.per() - 1)) * std::max(1.0L, powl((long double)R.half(nel - 1), R.p.per() - 1));
      if (lf) c.m.small("fe.left_value_bc", (long double)full(0, k), tol);
      if (rf) c.m.small("fe.right_value_bc", (long double)full(4 * (nel - 1) + 1, k), tol);
    }
  }
  // --- B/r on the first element
  if (zero && lf && n <= 7) {
    Vec<T> xr(3); xr << T(-1), (T)(-1 + g.loguniform(1e-12, 1e-2)), (T)g.uniform(-1, 1);
    for (int d = 0; d <= 2; d++) {
      Mat<T> f = fe.eval_over_r(xr, d, 0);
      for (int i = 0; i < 3; i++) { auto v = R.evalR(0, (q)xr(i), d);
        for (size_t k = 0; k < v.size(); k++) {
          int der = R.p.per() == 1 ? 0 : R.loc[0][k] % R.p.per();
          q sc = std::max(fabsq(v[k]), powq(R.half(0), der - d - 1) * powq((q)n, 2 * d + 2) * 0.1Q);
          c.m.small("fe.over_r", (long double)(((q)f(i, k) - v[k]) / (eps * sc)), 4e2L * n * cond);
        } }
    }
    if (nel > 1) c.m.require("fe.over_r_only_at_origin", !vf::thrown([&] { fe.eval_over_r(xr, 0, 1); }).empty());
  }
  if (!integrals) return;
  // --- element integrals, fixed and auto-converging quadrature
  int la = g.integer(0, 2), lb = g.integer(0, 2);
  q amp = 0; for (int e = 0; e < nel; e++) amp = std::max(amp, (fabsq(R.mid(e)) + R.half(e)) / R.half(e));
  // cancellation scale of the integral
  // natural magnitude of the element integrals (the exact matrix may vanish, e.g. second derivatives of linear functions)
  q nat = 0;
  for (int e = 0; e < nel; e++) for (int j : R.loc[e]) { int der = R.p.per() == 1 ? 0 : j % R.p.per(); nat = std::max(nat, powq(R.half(e), 2 * der + 1 - la - lb)); }
  auto scale_of = [&](const ref::qmat &M) { q s = nat * 1e-3Q; for (auto &r : M) for (auto v : r) s = std::max(s, fabsq(v)); return s; };
  const long double itol = 2e3L * n * n * cond * (1 + (long double)amp * 0.01L);
  {
    int k = g.integer(0, 3); q A = (q)g.uniform(-1, 1);
    q rs = 1 / std::max(fabsq((q)hi), fabsq((q)lo));
    std::function<T(T)> f = [=](T r) { T y = r * (T)rs; return (T)A + (T)std::pow(y, k); };
    ref::FE::fn fq = [=](q r) { return (q)(T)A + powq(r * (q)(T)rs, k); };
    auto ref_ = R.matrix(R.B(la), R.B(lb), fq, R.p.nprim() + 4);
    cmp_matrix<T>(c.m, "fe.matrix_auto_polynomial", fe.matrix_element(la, lb, f, {}, k), ref_, itol, scale_of(ref_));
    cmp_matrix<T>(c.m, "fe.matrix_auto_unknown_degree", fe.matrix_element(la, lb, f), ref_, itol, scale_of(ref_));
    Vec<T> xq, wq; lobatto::lobatto_compute<T>(R.p.nprim() + 5, xq, wq);
    cmp_matrix<T>(c.m, "fe.matrix_fixed_rule", fe.matrix_element(la, lb, xq, wq, f), ref_, itol, scale_of(ref_));
    Vec<T> v = fe.vector_element(la, xq, wq, f);
    ref::FE::ev one = [&](int e, q) { return std::vector<q>(R.loc[e].size(), 1); };
    std::vector<q> vr(R.nbf, 0); q vs = 0;
    const auto &G = ref::gauss(R.p.nprim() + 4);
    for (int e = 0; e < nel; e++) for (size_t i = 0; i < G.first.size(); i++) { auto b = R.eval(e, G.first[i], la); for (size_t j = 0; j < b.size(); j++) vr[R.glo[e][j]] += G.second[i] * R.half(e) * b[j] * fq(R.mid(e) + R.half(e) * G.first[i]); }
    for (int e = 0; e < nel; e++) for (int j : R.loc[e]) { int der = R.p.per() == 1 ? 0 : j % R.p.per(); vs = std::max(vs, powq(R.half(e), der + 1 - la) * powq((q)n, la)); }
    if (c.m.require("fe.vector_shape", v.size() == R.nbf))
      for (int j = 0; j < R.nbf; j++) c.m.small("fe.vector", (long double)(((q)v(j) - vr[j]) / (eps * std::max(vs, fabsq(vr[j])))), itol);
    // whole-basis integral equals the sum of the element blocks
    Mat<T> S = Mat<T>::Zero(R.nbf, R.nbf);
    for (int e = 0; e < nel; e++) { size_t a, b; fe.get_idx(e, a, b); S.block(a, a, b - a + 1, b - a + 1) += fe.matrix_element((size_t)e, la, lb, f); }
    cmp_matrix<T>(c.m, "fe.matrix_from_elements", S, ref_, itol, scale_of(ref_));
  }
  {
    // kinked weight, breakpoint inside an element (or on a boundary, or outside)
    double kr = g.coin(0.8) ? g.uniform(lo, hi) : bd[g.integer(0, nel)];
    T kT = (T)kr; q kq = (q)kT;
    std::function<T(T)> f = [=](T r) { return std::abs(r - kT); };
    ref::FE::fn fq = [=](q r) { return fabsq(r - kq); };
    auto ref_ = R.matrix(R.B(0), R.B(0), fq, R.p.nprim() + 4, {kq});
    cmp_matrix<T>(c.m, "fe.matrix_breakpoint", fe.matrix_element(0, 0, f, {kT}), ref_, itol, scale_of(ref_));
    // several kinks (some sharing an element), announced in any order, with duplicates and points outside
    int nk = g.integer(2, 5), ek = g.integer(0, nel - 1);
    std::vector<T> ks; std::vector<q> kqs;
    for (int i = 0; i < nk; i++) { double v = g.coin(0.7) ? g.uniform(bd[ek], bd[ek + 1]) : g.uniform(lo, hi); ks.push_back((T)v); kqs.push_back((q)(T)v); }
    std::function<T(T)> fm = [=](T r) { T s = 0; for (T k : ks) s += std::abs(r - k); return s; };
    ref::FE::fn fmq = [=](q r) { q s = 0; for (q k : kqs) s += fabsq(r - k); return s; };
    std::vector<T> ann = ks; if (g.coin()) ann.push_back(ks[g.integer(0, nk - 1)]); if (g.coin()) ann.push_back((T)(hi + 1)); if (g.coin()) ann.push_back((T)(lo - 1));
    for (size_t i = ann.size(); i > 1; i--) std::swap(ann[i - 1], ann[g.integer(0, (int)i - 1)]);
    auto refm = R.matrix(R.B(0), R.B(0), fmq, R.p.nprim() + 4, kqs);
    cmp_matrix<T>(c.m, "fe.matrix_many_breakpoints", fe.matrix_element(0, 0, fm, ann), refm, itol, scale_of(refm));
  }
  {
    // smooth non-polynomial weight: order adapts to the scalar type
    double al = g.uniform(0.05, 1.5) / (hi - lo) * nel;
    std::function<T(T)> f = [=](T r) { return std::exp(-(T)al * (r - (T)lo)); };
    ref::FE::fn fq = [=](q r) { return expq(-(q)al * (r - (q)lo)); };
    auto ref_ = R.matrix(R.B(la), R.B(lb), fq, R.p.nprim() + 36);
    cmp_matrix<T>(c.m, "fe.matrix_smooth", fe.matrix_element(la, lb, f), ref_, itol, scale_of(ref_));
  }
  {
    // the accuracy is relative to the integral, whatever the units of the weight; narrow enough for the first orders not to be converged
    int e = g.integer(0, nel - 1); q h = R.half(e);
    double mag = std::pow(10.0, g.coin() ? g.uniform(-13, -9) : g.uniform(-9, 13)), be = (double)(g.loguniform(1, 60) / (h * h)), x0 = (double)(R.mid(e) + (q)g.uniform(-1.1, 1.1) * h);
    std::function<T(T)> f = [=](T r) { return (T)mag * std::exp(-(T)be * (r - (T)x0) * (r - (T)x0)); };
    ref::FE::fn fq = [=](q r) { q d = r - (q)x0; return (q)mag * expq(-(q)be * d * d); };
    std::vector<q> cut; for (int i = 1; i < 4; i++) cut.push_back(R.b[e] + (R.b[e + 1] - R.b[e]) * i / 4);
    ref::qmat M(R.nbf, std::vector<q>(R.nbf, 0)); R.element(M, e, R.B(0), R.B(0), fq, R.p.nprim() + 32, cut, R.b[e], R.b[e + 1]);
    Mat<T> S = Mat<T>::Zero(R.nbf, R.nbf); size_t a, b; fe.get_idx(e, a, b); S.block(a, a, b - a + 1, b - a + 1) = fe.matrix_element((size_t)e, 0, 0, f);
    cmp_matrix<T>(c.m, "fe.matrix_scaled_weight", S, M, 4 * itol, 0, 0, vf::fmt("mag=%g be*h^2=%g", mag, be * (double)(h * h))); c.m.event("scaled_weights");
  }
  if (zero && lf) {
    // integrable 1/r singularity on a Dirichlet basis
    std::function<T(T)> f = [=](T r) { return T(1) / r; };
    ref::FE::ev rv = R.R(0);
    auto ref_ = R.matrix(R.B(0), rv, nullptr, R.p.nprim() + 36);
    cmp_matrix<T>(c.m, "fe.matrix_inverse_r", fe.matrix_element(0, 0, f), ref_, itol, scale_of(ref_));
  }
  {
    // partial element
    int e = g.integer(0, nel - 1); T xl = (T)g.uniform(-1, 0.2), xr = (T)g.uniform((double)xl + 0.1, 1);
    auto ev = [&](Vec<T> x, size_t iel) { return fe.eval_dnf(x, 0, iel); };
    ref::qmat M(R.nbf, std::vector<q>(R.nbf, 0));
    R.element(M, e, R.B(0), R.B(0), nullptr, R.p.nprim() + 4, {}, R.mid(e) + R.half(e) * (q)xl, R.mid(e) + R.half(e) * (q)xr);
    Mat<T> blk = fe.matrix_element_auto((size_t)e, ev, ev, nullptr, {}, -1, xl, xr);
    size_t a, b; fe.get_idx(e, a, b);
    Mat<T> S = Mat<T>::Zero(R.nbf, R.nbf);
    if (c.m.require("fe.partial_shape", blk.rows() == (int)(b - a + 1) && blk.cols() == blk.rows())) {
      S.block(a, a, b - a + 1, b - a + 1) = blk;
      q sc = 0; for (int j : R.loc[e]) { int der = R.p.per() == 1 ? 0 : j % R.p.per(); sc = std::max(sc, powq(R.half(e), 2 * der + 1)); }
      cmp_matrix<T>(c.m, "fe.partial_element", S, M, itol, std::max(scale_of(M), sc * 0.01Q));
    }
  }
  // --- add_boundary refines the mesh
  {
    auto f2 = fe; double nb = g.uniform(lo, hi); int ex = g.integer(0, nel);
    f2.add_boundary((T)bd[ex]);
    c.m.require("fe.add_existing_boundary_is_noop", f2.get_nelem() == fe.get_nelem() && f2.get_nbf() == fe.get_nbf());
    f2.add_boundary((T)nb);
    Vec<T> nv = f2.get_bval();
    bool sorted = nv.size() == nel + 2; bool has = false;
    for (int i = 0; i < nv.size(); i++) { if (i) sorted = sorted && nv(i) > nv(i - 1); if (nv(i) == (T)nb) has = true; }
    c.m.require("fe.add_boundary_sorted", sorted && has);
    ref::FE R2; R2.p = R.p; for (int i = 0; i < nv.size(); i++) R2.b.push_back((q)nv(i)); R2.setup(lf, ld, rf, rd);
    bool ok = (int)f2.get_nbf() == R2.nbf && (int)f2.get_nelem() == nel + 1;
    for (int e = 0; ok && e < nel + 1; e++) { size_t a, b; f2.get_idx(e, a, b); ok = (int)a == R2.glo[e][0] && (int)b == R2.glo[e].back(); }
    c.m.require("fe.add_boundary_reindexes", ok);
  }
}
VF_SECTION("structure_double") { for (int k = 0; k < c.n(150, 1500); k++) fe_case<double>(c, false); }
VF_SECTION("structure_large") { for (int k = 0; k < c.n(16, 150); k++) fe_case<double>(c, false, 1 + k % 2); for (int k = 0; k < c.n(4, 40); k++) fe_case<_Float128>(c, false, 1 + k % 2); }
VF_SECTION("integrals_large") { for (int k = 0; k < c.n(8, 80); k++) fe_case<double>(c, true, 1 + k % 2); }
VF_SECTION_WIDE("structure_ld") { for (int k = 0; k < c.n(100, 900); k++) fe_case<long double>(c, false); }
VF_SECTION("structure_q") { for (int k = 0; k < c.n(60, 500); k++) fe_case<_Float128>(c, false); }
VF_SECTION("integrals_double") { for (int k = 0; k < c.n(50, 500); k++) fe_case<double>(c, true); }
VF_SECTION("integrals_double2") { for (int k = 0; k < c.n(50, 500); k++) fe_case<double>(c, true); }
VF_SECTION_WIDE("integrals_ld") { for (int k = 0; k < c.n(40, 300); k++) fe_case<long double>(c, true); }
VF_SECTION("integrals_q") { for (int k = 0; k < c.n(14, 120); k++) fe_case<_Float128>(c, true); }
VF_SECTION("integrals_q2") { for (int k = 0; k < c.n(14, 120); k++) fe_case<_Float128>(c, true); }
VF_MAIN
