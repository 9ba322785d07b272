// P01: quadrature rules
#include "vf.h"
#include "ref.h"
#include <Matrix.h>
#include <lobatto.h>
#include <chebyshev.h>
#include "general/angular.h"
using namespace helfem;
using ref::q;

template <class T> struct Name;
template <> struct Name<double> { static constexpr const char *n = "double"; };
template <> struct Name<long double> { static constexpr const char *n = "long double"; };
template <> struct Name<_Float128> { static constexpr const char *n = "_Float128"; };

template <class T> void lobatto_case(vf::Ctx &c, int n) {
  c.m.begin(vf::fmt("lobatto n=%d T=%s", n, Name<T>::n));
  Vec<T> x, w;
  lobatto::lobatto_compute<T>(n, x, w);
  const q eps = (q)std::numeric_limits<T>::epsilon();
  if (!c.m.require("lobatto.size", x.size() == n && w.size() == n)) return;
  c.m.small("lobatto.left_end", (long double)(((q)x(0) + 1) / eps), 4);
  c.m.small("lobatto.right_end", (long double)(((q)x(n - 1) - 1) / eps), 4);
  c.m.require("lobatto.nodes_inside_interval", x(0) >= T(-1) && x(n - 1) <= T(1),
              vf::fmt("x0+1=%.3Lg xn-1=%.3Lg", (long double)(x(0) + T(1)), (long double)(x(n - 1) - T(1))));
  q sum = 0;
  for (int i = 0; i < n; i++) {
    if (i) c.m.require("lobatto.ascending", x(i) > x(i - 1), vf::fmt("i=%d", i));
    c.m.require("lobatto.positive_weights", w(i) > T(0), vf::fmt("i=%d", i));
    c.m.small("lobatto.node_symmetry", (long double)(((q)x(i) + (q)x(n - 1 - i)) / eps), 16);
    c.m.small("lobatto.weight_symmetry", (long double)(((q)w(i) - (q)w(n - 1 - i)) / (eps * (q)w(i))), 400 + 40.0L * n);
    sum += (q)w(i);
  }
  c.m.small("lobatto.weight_sum", (long double)((sum - 2) / eps), 40 + 4.0L * n);
  // exact for every polynomial of degree <= 2n-3: sum_i w_i P_k(x_i) = 0
  int kmax = 2 * n - 3;
  std::vector<q> a(n, 1), b(n);
  for (int i = 0; i < n; i++) b[i] = (q)x(i);
  q worst = 0; int kw = 0;
  for (int k = 1; k <= kmax; k++) {
    q s = 0;
    for (int i = 0; i < n; i++) s += (q)w(i) * b[i];
    if (fabsq(s) > worst) { worst = fabsq(s); kw = k; }
    for (int i = 0; i < n; i++) { q t = ((2 * k + 1) * (q)x(i) * b[i] - k * a[i]) / (k + 1); a[i] = b[i]; b[i] = t; }
  }
  c.m.small("lobatto.exact_to_degree_2n-3", (long double)(worst / eps), 60 + 20.0L * n, vf::fmt("k=%d", kw));
  c.m.event("polynomials integrated", kmax > 0 ? kmax : 0);
}

template <class T> void chebyshev_case(vf::Ctx &c, int n) {
  c.m.begin(vf::fmt("chebyshev n=%d T=%s", n, Name<T>::n));
  Vec<T> x, w;
  chebyshev::chebyshev<T>(n, x, w);
  const q eps = (q)std::numeric_limits<T>::epsilon();
  if (!c.m.require("chebyshev.size", x.size() == n && w.size() == n)) return;
  q sum = 0;
  for (int i = 0; i < n; i++) {
    c.m.require("chebyshev.open_interval", x(i) > T(-1) && x(i) < T(1));
    if (i) c.m.require("chebyshev.ascending", x(i) > x(i - 1));
    c.m.require("chebyshev.positive_weights", w(i) > T(0));
    c.m.small("chebyshev.node_symmetry", (long double)(((q)x(i) + (q)x(n - 1 - i)) / eps), 40);
    c.m.small("chebyshev.weight_symmetry", (long double)(((q)w(i) - (q)w(n - 1 - i)) / eps), 40);
    sum += (q)w(i);
    // the rule is the trapezoid rule in theta of x(theta) = -1 + int_theta^pi 16/(3 pi) sin^4
    q th = M_PIq * (n - i) / (n + 1);
    q s = sinq(th);
    c.m.small("chebyshev.weight_definition", (long double)(((q)w(i) - 16 * s * s * s * s / (3 * (q)(n + 1))) / eps), 40);
    if (n <= 40) {
      q xr = -1 + ref::integrate([](q t) { q u = sinq(t); return 16 / (3 * M_PIq) * u * u * u * u; }, th, M_PIq, 30);
      c.m.small("chebyshev.node_definition", (long double)(((q)x(i) - xr) / eps), 40);
    }
  }
  if (n >= 2) c.m.small("chebyshev.weight_sum", (long double)((sum - 2) / eps), 60 + 2.0L * n);
  // smooth integrands converge to the exact integral
  if (n >= 60) {
    for (int k = 0; k <= 8; k++) {
      q s = 0;
      for (int i = 0; i < n; i++) s += (q)w(i) * powq((q)x(i), k);
      q ex = (k % 2) ? 0 : 2 / (q)(k + 1);
      c.m.small("chebyshev.converges_on_polynomials", (long double)(s - ex), 1e-12L + 200 * (long double)eps, vf::fmt("k=%d", k));
    }
    q al = c.rng.uniform(-2, 2), s = 0;
    for (int i = 0; i < n; i++) s += (q)w(i) * expq(al * (q)x(i));
    c.m.small("chebyshev.converges_on_exp", (long double)(s - (expq(al) - expq(-al)) / al), 1e-11L);
  }
}
template <class T> void radial_case(vf::Ctx &c, int n) {
  c.m.begin(vf::fmt("radial_chebyshev n=%d T=%s", n, Name<T>::n));
  Vec<T> r, w;
  chebyshev::radial_chebyshev<T>(n, r, w);
  if (!c.m.require("radial.size", r.size() == n && w.size() == n)) return;
  for (int i = 0; i < n; i++) {
    c.m.require("radial.positive", r(i) > T(0) && w(i) > T(0));
    if (i) c.m.require("radial.ascending", r(i) > r(i - 1));
  }
  // the substitution r = log2(2/(1-x)) of the finite rule, with its Jacobian
  Vec<T> xc, wc;
  chebyshev::chebyshev<T>(n, xc, wc);
  const q eps = (q)std::numeric_limits<T>::epsilon();
  for (int i = 0; i < n; i++) {
    q om = 1 - (q)xc(i), ln2 = logq(2.0Q), rr = logq(2 / om) / ln2, wr = (q)wc(i) / (ln2 * om);
    c.m.small("radial.node_definition", (long double)(((q)r(i) - rr) / (eps * (1 + 1 / om + rr))), 60);
    c.m.small("radial.weight_definition", (long double)(((q)w(i) / wr - 1) / (eps * (1 + 1 / om))), 60);
  }
  if (n < 100) return;
  for (double a : {0.6, 1.0, 2.5}) {
    q s0 = 0, s2 = 0, s4 = 0;
    for (int i = 0; i < n; i++) {
      q R = (q)r(i), g = expq(-(q)a * R);
      s0 += (q)w(i) * g; s2 += (q)w(i) * g * R * R; s4 += (q)w(i) * g * R * R * R * R;
    }
    q A = a; long double rt = 3e-4L;
    c.m.small("radial.converges_exp", (long double)(s0 * A - 1), rt, vf::fmt("a=%g k=0", a));
    c.m.small("radial.converges_exp", (long double)(s2 * A * A * A / 2 - 1), rt, vf::fmt("a=%g k=2", a));
    c.m.small("radial.converges_exp", (long double)(s4 * powq(A, 5) / 24 - 1), rt, vf::fmt("a=%g k=4", a));
  }
}

static void angular_case(vf::Ctx &c, bool lob, int l, int m, bool two) {
  c.m.begin(vf::fmt("angular_%s l=%d nphi=%d %s", lob ? "lobatto" : "chebyshev", l, m, two ? "(l,m)" : "(l)"));
  Vector cth, phi, w;
  if (two) { if (lob) angular::angular_lobatto(l, m, cth, phi, w); else angular::angular_chebyshev(l, m, cth, phi, w); }
  else { if (lob) angular::angular_lobatto(l, cth, phi, w); else angular::angular_chebyshev(l, cth, phi, w); m = l; }
  size_t N = cth.size();
  if (!c.m.require("angular.size", N == (size_t)l * m && (size_t)phi.size() == N && (size_t)w.size() == N)) return;
  q sum = 0;
  for (size_t i = 0; i < N; i++) {
    c.m.require("angular.range", cth(i) >= -1 && cth(i) <= 1 && phi(i) >= 0 && phi(i) < 2 * M_PI + 1e-12 && w(i) > 0);
    sum += (q)w(i);
  }
  if (lob || l >= 2) c.m.small("angular.total_solid_angle", (long double)(sum - 4 * M_PIq), 1e-12L);
  // every Y_LM with |M| < nphi, M != 0 integrates to zero; M = 0 for 1 <= L <= 2l-3 (Lobatto)
  int Lmax = std::min(lob ? 2 * l - 3 : 8, 24);
  for (int L = 1; L <= Lmax; L++)
    for (int M = 0; M <= std::min(L, m - 1); M++) {
      if (!lob && M == 0 && l < 60) continue;
      q re = 0, im = 0;
      for (size_t i = 0; i < N; i++) {
        q t = (q)w(i) * ref::theta(L, M, (q)cth(i)) / sqrtq(2 * M_PIq);
        re += t * cosq(M * (q)phi(i)); im += t * sinq(M * (q)phi(i));
      }
      c.m.small(lob || M ? "angular.spherical_harmonics_integrate_to_zero" : "angular.chebyshev_converges",
                (long double)(fabsq(re) + fabsq(im)), lob || M ? 2e-13L * (1 + L) : 1e-11L, vf::fmt("L=%d M=%d", L, M));
    }
}

VF_SECTION("lobatto_double") {
  for (int n = 2; n <= c.n(100, 200); n++) lobatto_case<double>(c, n);
  for (int k = 0; k < c.n(12, 60); k++) lobatto_case<double>(c, c.rng.integer(100, 600));
  for (int n : {1, 0, -3}) {
    c.m.begin(vf::fmt("lobatto n=%d rejected", n));
    Vec<double> x, w;
    c.m.require("lobatto.rejects_n<2", !vf::thrown([&] { lobatto::lobatto_compute<double>(n, x, w); }).empty());
  }
}
VF_SECTION("lobatto_ld") {
  for (int n = 2; n <= c.n(90, 200); n++) lobatto_case<long double>(c, n);
  for (int k = 0; k < c.n(8, 40); k++) lobatto_case<long double>(c, c.rng.integer(100, 400));
}
VF_SECTION("lobatto_q") {
  for (int n = 2; n <= c.n(70, 160); n++) lobatto_case<_Float128>(c, n);
  for (int k = 0; k < c.n(4, 20); k++) lobatto_case<_Float128>(c, c.rng.integer(80, 300));
}
VF_SECTION("chebyshev") {
  for (int n = 1; n <= c.n(70, 150); n++) { chebyshev_case<double>(c, n); chebyshev_case<long double>(c, n); chebyshev_case<_Float128>(c, n); }
  for (int k = 0; k < c.n(6, 40); k++) { int n = c.rng.integer(80, 500); chebyshev_case<double>(c, n); chebyshev_case<long double>(c, n); }
  for (int n = 1; n < 20; n++) radial_case<double>(c, n);
  for (int k = 0; k < c.n(6, 40); k++) { int n = c.rng.integer(100, 500); radial_case<double>(c, n); radial_case<long double>(c, n); radial_case<_Float128>(c, n); }
}
VF_SECTION("angular") {
  for (int k = 0; k < c.n(60, 300); k++) {
    bool lob = c.rng.coin(0.7), two = c.rng.coin(0.8);
    angular_case(c, lob, c.rng.integer(lob ? 2 : 1, lob ? 24 : 70), c.rng.integer(1, 24), two);
  }
  angular_case(c, false, 90, 7, true); angular_case(c, false, 64, 5, true);
}
VF_MAIN
