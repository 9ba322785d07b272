// P04: radial grids and angular index lists
#include "util.h"
#include <grid.h>
#include "atomic/basis.h"
using namespace helfem;
using ref::q;

static q grid_ref(q rmax, int n, int kind, q z, int i) {
  if (i == 0) return 0;
  if (i == n) return rmax;
  switch (kind) {
    case 1: return rmax * i / n;
    case 2: return rmax * i * i / ((q)n * n);
    case 3: return rmax * powq((q)i / n, z);
    case 4: { q up = powq(logq(rmax + 1), 1 / z); return expq(powq(up * i / n, z)) - 1; }
    default: return rmax * (powq(z, n - i) - powq(z, n)) / (1 - powq(z, n));
  }
}
template <class T> void check_grid(vf::Ctx &c, const std::string &key, const Vec<T> &b, q rmax, int n, int kind, q z) {
  const q eps = (q)std::numeric_limits<T>::epsilon();
  if (!c.m.require(key + ".count", b.size() == n + 1, vf::fmt("%d", (int)b.size()))) return;
  c.m.require(key + ".starts_at_zero", b(0) == T(0));
  c.m.require(key + ".ends_at_rmax", (q)b(n) == rmax, vf::fmt("%.17g", (double)b(n)));
  for (int i = 1; i <= n; i++) {
    c.m.require(key + ".strictly_increasing", b(i) > b(i - 1), vf::fmt("i=%d", i));
    q want = grid_ref(rmax, n, kind, z, i);
    c.m.small(key + ".placement", (long double)(((q)b(i) - want) / (eps * (want + (kind == 4 ? 1 : kind == 5 ? want : (q)0)))), 400 + 40.0L * n * (kind == 5 || kind == 1), vf::fmt("i=%d", i));
  }
}
template <class T> void grid_case(vf::Ctx &c) {
  auto &g = c.rng;
  int n = g.integer(1, 30), kind = g.integer(1, 5);
  T rmax = (T)g.loguniform(1e-3, 300), z = kind == 5 ? (T)g.uniform(0.1, 0.95) : (T)g.uniform(0.6, 3);
  c.m.begin(vf::fmt("get_grid T=%s rmax=%.8g n=%d kind=%d z=%.6g", Name<T>::n, (double)rmax, n, kind, (double)z));
  check_grid<T>(c, "grid", grid::get_grid<T>(rmax, n, kind, z), (q)rmax, n, kind, (q)z);
  if constexpr (std::is_same_v<T, double>) {
    check_grid<T>(c, "utils_grid", utils::get_grid(rmax, n, kind, z), (q)rmax, n, kind, (q)z);
    check_grid<T>(c, "normal_grid", atomic::basis::normal_grid(n, rmax, kind, z), (q)rmax, n, kind, (q)z);
  }
}
static bool contains(const Vector &b, double r, double tol) { for (int i = 0; i < b.size(); i++) if (std::abs(b(i) - r) <= tol) return true; return false; }
static void increasing(vf::Ctx &c, const std::string &key, const Vector &b, double rmax) {
  bool ok = b.size() >= 2;
  for (int i = 1; i < b.size(); i++) ok = ok && b(i) > b(i - 1);
  c.m.require(key + ".strictly_increasing", ok);
  c.m.require(key + ".starts_at_zero", b.size() && b(0) == 0.0);
  if (b.size()) c.m.small(key + ".ends_at_rmax", (b(b.size() - 1) - rmax) / rmax, 1e-14L, vf::fmt("last=%.17g rmax=%.17g", b(b.size() - 1), rmax));
}
static void form_case(vf::Ctx &c) {
  auto &g = c.rng;
  using namespace modelpotential;
  auto model = g.pick({POINT_NUCLEUS, GAUSSIAN_NUCLEUS, SPHERICAL_NUCLEUS, HOLLOW_NUCLEUS, REGULARIZED_NUCLEUS});
  bool finite = model != POINT_NUCLEUS && model != REGULARIZED_NUCLEUS;
  double Rrms = g.loguniform(1e-5, 1e-1), rmax = g.uniform(5, 60);
  int N = g.integer(1, 12), N0 = g.integer(finite ? 0 : 1, 5), k = g.integer(1, 4), k0 = g.integer(1, 4);
  double z = g.uniform(1, 2.5), z0 = g.uniform(1, 2.5);
  bool off = !finite && g.coin(0.6);
  int Z = g.integer(0, 5), Zl = 0, Zr = 0; double Rh = 0;
  if (off) { int w = g.integer(0, 2); if (w != 1) Zl = g.integer(1, 6); if (w != 0) Zr = g.integer(1, 6); Rh = g.uniform(0.3, 3); }
  bool add = g.coin(0.4); double sh = g.uniform(0.5, rmax);
  c.m.begin(vf::fmt("form_grid model=%d Rrms=%.4g N=%d rmax=%.6g k=%d z=%.4g N0=%d k0=%d z0=%.4g Z=%d Zl=%d Zr=%d Rh=%.5g add=%d at %.5g", (int)model, Rrms, N, rmax, k, z, N0, k0, z0, Z, Zl, Zr, Rh, add, sh));
  Vector b = atomic::basis::form_grid(model, Rrms, N, rmax, k, z, N0, k0, z0, Z, Zl, Zr, Rh, add, sh);
  Vector b0 = atomic::basis::form_grid(model, Rrms, N, rmax, k, z, N0, k0, z0, Z, Zl, Zr, Rh);
  increasing(c, "form_grid", b, rmax); increasing(c, "form_grid0", b0, rmax);
  int extra = 0;
  if (finite) {
    double rn = model == HOLLOW_NUCLEUS ? Rrms : model == SPHERICAL_NUCLEUS ? std::sqrt(5.0 / 3.0) * Rrms : 3 * Rrms;
    if (N0) c.m.require("form_grid.nuclear_surface_is_boundary", contains(b0, rn, 1e-15 + 1e-12 * rn), vf::fmt("rnuc=%.17g", rn));
    c.m.require("form_grid.element_count", b0.size() - 1 == N + 2 * N0, vf::fmt("%d", (int)b0.size() - 1));
    if (N0) for (int i = 0; i <= N0; i++) c.m.small("form_grid.nuclear_part", b0(i) - (double)grid_ref(rn, N0, k0, z0, i), 1e-12L * rn + 4e-15L);
  } else if (off) {
    int zm = std::max(Zl, Zr);
    c.m.require("form_grid.offcentre_nucleus_is_boundary", contains(b0, Rh, 1e-14 * (1 + Rh)), vf::fmt("Rh=%.17g", Rh));
    if (Z) c.m.require("form_grid.partition_boundary", contains(b0, Z * Rh / (Z + zm), 1e-13));
    c.m.require("form_grid.element_count", b0.size() - 1 == N + N0 * ((Z != 0) + 1), vf::fmt("%d", (int)b0.size() - 1));
    // spacing tightens towards the off-centre nucleus from both sides
    for (int i = 0; i <= N; i++) c.m.small("form_grid.outer_part", b0(b0.size() - 1 - N + i) - (Rh + (double)grid_ref((q)rmax - (q)Rh, N, k, z, i)), 1e-12L * rmax);
    int s = Z ? N0 : 0; double base = Z ? Z * Rh / (double)(Z + zm) : 0;
    for (int i = 0; i <= N0; i++) c.m.small("form_grid.inner_part", b0(s + i) - (double)((q)Rh - grid_ref((q)Rh - (q)base, N0, k, z, N0 - i)), 1e-12L * rmax);
  } else check_grid<double>(c, "form_grid.normal", b0, rmax, N, k, z);
  if (add) {
    extra = contains(b0, sh, 0) ? 0 : 1;
    c.m.require("form_grid.added_boundary_present", contains(b, sh, 0));
    c.m.require("form_grid.added_boundary_count", b.size() == b0.size() + extra);
    for (int i = 0; i < b0.size(); i++) c.m.require("form_grid.existing_boundaries_kept", contains(b, b0(i), 0));
  } else c.m.require("form_grid.no_spurious_boundary", b.size() == b0.size());
}
VF_SECTION("grids") {
  for (int k = 0; k < c.n(1500, 15000); k++) { grid_case<double>(c); grid_case<long double>(c); if (k % 3 == 0) grid_case<_Float128>(c); }
  for (int kind : {-1, 0, 6, 7, 99}) { c.m.begin(vf::fmt("igrid=%d", kind)); c.m.require("grid.rejects_unknown_kind", !vf::thrown([&] { grid::get_grid<double>(10.0, 5, kind, 2.0); }).empty()); c.m.require("grid.rejects_unknown_kind_u", !vf::thrown([&] { utils::get_grid(10.0, 5, kind, 2.0); }).empty()); }
  for (double z : {0.0, 1.0, -0.5, 1.5}) { c.m.begin(vf::fmt("geometric z=%g", z)); c.m.require("grid.rejects_bad_geometric_parameter", !vf::thrown([&] { grid::get_grid<double>(10.0, 5, 5, z); }).empty()); }
}
VF_SECTION("form_grid") {
  for (int k = 0; k < c.n(2500, 20000); k++) form_case(c);
  using namespace modelpotential;
  for (auto m : {GAUSSIAN_NUCLEUS, SPHERICAL_NUCLEUS, HOLLOW_NUCLEUS}) {
    c.m.begin(vf::fmt("finite nucleus model %d with off-centre charge", (int)m));
    c.m.require("form_grid.rejects_offcentre_finite_nucleus", !vf::thrown([&] { atomic::basis::form_grid(m, 0.01, 5, 40, 4, 2, 2, 4, 2, 1, 1, 0, 1.0); }).empty() && !vf::thrown([&] { atomic::basis::form_grid(m, 0.01, 5, 40, 4, 2, 2, 4, 2, 1, 0, 1, 1.0); }).empty());
  }
}
VF_SECTION("angular_lists") {
  for (int lmax = 0; lmax <= 12; lmax++) for (int mmax = 0; mmax <= lmax + 2; mmax++) {
    c.m.begin(vf::fmt("angular_basis lmax=%d mmax=%d", lmax, mmax));
    Eigen::VectorXi l, m;
    atomic::basis::angular_basis(lmax, mmax, l, m);
    std::set<std::pair<int, int>> s, w;
    for (int i = 0; i < l.size(); i++) s.insert({l(i), m(i)});
    for (int L = 0; L <= lmax; L++) for (int M = -std::min(L, mmax); M <= std::min(L, mmax); M++) w.insert({L, M});
    c.m.require("angular_basis.complete_and_unique", s == w && l.size() == (int)w.size() && m.size() == l.size());
  }
}
VF_MAIN
