// P08: special functions
#include "vf.h"
#include "refrad.h"
#include "refspec.h"
#include <legendre/Legendre_float128.h>
#include <spherical_harmonics.h>
#include <erfc_expn.h>
#include <utils.h>
#include <math.h>
#include <legendre_poly.h>
#include <complex>
using namespace helfem;
template <class T> struct LName { static constexpr const char *n = Name<T>::n; };
template <> struct LName<__float128> { static constexpr const char *n = "__float128"; };
template <class T> q EPS() { return (q)std::numeric_limits<T>::epsilon(); }
template <> q EPS<__float128>() { return 0x1p-112Q; }

template <class T> void plm_case(vf::Ctx &c) {
  auto &g = c.rng;
  int lmax = g.coin(0.1) ? 0 : g.integer(0, 40), mmax = g.integer(0, std::min(lmax + 3, 24));
  T x; int kind = g.integer(0, 5);
  if (kind == 0) x = (T)g.uniform(-1, 1); else if (kind == 1) x = (T)(1 - g.loguniform(1e-14, 1e-2)) * (g.coin() ? 1 : -1);
  else if (kind == 2) x = (T)1 + (T)g.loguniform(1e-14, 1); else if (kind == 3) x = (T)std::cosh(g.uniform(0.01, 6)); else if (kind == 4) x = -(T)std::cosh(g.uniform(0.01, 4)); else x = (T)g.pick({0.0, 1.0, -1.0, 0.5, -0.0});
  c.m.begin(vf::fmt("plm T=%s lmax=%d mmax=%d x=%.17g", LName<T>::n, lmax, mmax, (double)x));
  std::vector<T> P((lmax + 1) * (mmax + 1) + 2, (T)777);
  legendre::plm<T>(P.data() + 1, lmax, mmax, x);
  c.m.require("plm.writes_only_its_table", P.front() == (T)777 && P.back() == (T)777);
  q X = (q)x; bool off = X > 1 || X < -1;
  for (int m = 0; m <= mmax; m++) { q sc = 0;
    for (int l = 0; l <= lmax; l++) {
      q got = (q)P[1 + m * (lmax + 1) + l];
      if (m > l) { c.m.require("plm.zero_above_diagonal", got == 0); continue; }
      q r = off ? (X < 0 ? ((l + m) % 2 ? -1 : 1) * Poff(l, m, -X) : Poff(l, m, X)) : ref::assocP(l, m, X);
      sc = std::max(sc * (off ? (q)0 : (q)1), fabsq(r));   // on the cut the column oscillates: neighbours set the scale
      // x^2-1 near the branch point loses the digits of x-1
      q amp = 1 + (fabsq(fabsq(X) - 1) > 0 ? m * 1 / fabsq(fabsq(X) - 1) * EPS<T>() * 0.5Q / EPS<T>() : (q)0);
      c.m.small(off ? "plm.off_cut" : "plm.on_cut", sc > 0 ? (long double)(fabsq(got - r) / (EPS<T>() * sc * amp)) : (long double)fabsq(got), sc > 0 ? 200.0L * (l + 1) : 0.0L, vf::fmt("l=%d m=%d", l, m));
    } }
}
VF_SECTION("plm") { for (int i = 0; i < c.n(600, 6000); i++) { plm_case<double>(c); plm_case<long double>(c); if (i % 3 == 0) plm_case<__float128>(c); }
  c.m.begin("plm rejects"); double o[4];
  c.m.require("plm.negative_rejected", !vf::thrown([&] { legendre::plm<double>(o, -1, 0, 0.3); }).empty() && !vf::thrown([&] { legendre::plm<double>(o, 0, -1, 0.3); }).empty() && !vf::thrown([&] { legendre::qlm<double>(o, -1, 0, 0.3); }).empty() && !vf::thrown([&] { legendre::qlm<double>(o, 0, -1, 0.3); }).empty());
  for (double x : {1.0, -1.0}) c.m.require("qlm.singular_rejected", !vf::thrown([&] { legendre::qlm<double>(o, 1, 1, x); }).empty()); }

template <class T> void qlm_off(vf::Ctx &c) {
  auto &g = c.rng;
  int lmax = g.coin(0.1) ? 0 : g.integer(0, 36), mmax = g.integer(0, std::min(lmax + 2, 14));
  // prolate coordinate cosh(mu): from just above the cut to far outside; also around the switch of algorithm
  double kind = g.uniform(); T x;
  if (kind < 0.3) x = (T)1 + (T)g.loguniform(1e-10, 1); else if (kind < 0.5 && lmax > 0) x = std::is_same_v<T, __float128> ? (T)std::cosh(std::log(1e3) / (2 * lmax) * g.uniform(0.8, 1.25)) : (T)std::cosh(std::log(1e3) / (2 * lmax) * g.uniform(0.97, 1.03)); else if (kind < 0.9) x = (T)std::cosh(g.uniform(0.05, 5)); else x = (T)g.loguniform(1.5, 60);
  bool neg = g.coin(0.15);
  c.m.begin(vf::fmt("qlm off T=%s lmax=%d mmax=%d x=%s%.17g", LName<T>::n, lmax, mmax, neg ? "-" : "", (double)x));
  std::vector<T> Q((lmax + 1) * (mmax + 1) + 2, (T)777);
  legendre::qlm<T>(Q.data() + 1, lmax, mmax, neg ? -x : x);
  c.m.require("qlm.writes_only_its_table", Q.front() == (T)777 && Q.back() == (T)777);
  q X = (q)x, d = X - 1;
  std::vector<std::pair<int, int>> pts{{lmax, mmax}, {0, mmax}, {lmax, 0}, {0, 0}};
  for (int k = 0; k < 3; k++) pts.push_back({g.integer(0, lmax), g.integer(0, mmax)});
  for (auto [l, m] : pts) {
    q r = Qoff(l, m, d); if (neg) r *= (l + 1 + m) % 2 ? -1 : 1;   // d^m/dx^m Q_l parity; w is even
    if (fabsq(r) < 1e-280Q || fabsq(r) > 1e280Q) continue;
    // x^2-1 and log(x-1) near the branch point: x-1 itself is exact, but w and 1/w carry the rounding of x*x
    q amp = 1 + 0.5Q * (m + 1) / d;
    c.m.small(vf::fmt("qlm.off_cut.%s", LName<T>::n), (long double)(((q)Q[1 + m * (lmax + 1) + l] - r) / (EPS<T>() * amp * fabsq(r))), 1e5L * (l + 1) * (m + 1), vf::fmt("l=%d m=%d", l, m));
  }
}
template <class T> void qlm_on(vf::Ctx &c) {
  auto &g = c.rng;
  int lmax = g.integer(0, 30), mmax = g.integer(0, std::min(lmax + 2, 12));
  T x = g.coin(0.8) ? (T)g.uniform(-0.98, 0.98) : (T)g.pick({0.0, 0.999, -0.999, 0.5});
  c.m.begin(vf::fmt("qlm cut T=%s lmax=%d mmax=%d x=%.17g", LName<T>::n, lmax, mmax, (double)x));
  std::vector<T> Q((lmax + 1) * (mmax + 1));
  legendre::qlm<T>(Q.data(), lmax, mmax, x);
  for (int m = 0; m <= mmax; m++) { auto col = Qcut_column(lmax, m, (q)x); q sc = 0;
    for (int l = 0; l <= lmax; l++) { sc = std::max(fabsq(col[l]), l > 0 ? fabsq(col[l - 1]) : (q)0);
      // natural magnitude of column m at degree l
      q amp = 1 + (m + 1) * 0.5Q / (1 - (q)x * (q)x); q nat = 1; for (int k = 1; k <= m; k++) nat *= (l + k); sc = std::max(sc, nat);
      c.m.small(vf::fmt("qlm.on_cut.%s", LName<T>::n), (long double)(((q)Q[m * (lmax + 1) + l] - col[l]) / (EPS<T>() * amp * sc)), 50.0L * (l + 1), vf::fmt("l=%d m=%d", l, m)); } }
}
VF_SECTION("qlm_off_double") { for (int i = 0; i < c.n(400, 6000); i++) qlm_off<double>(c); }
VF_SECTION("qlm_off_long") { for (int i = 0; i < c.n(250, 3000); i++) qlm_off<long double>(c); }
VF_SECTION("qlm_off_quad") { for (int i = 0; i < c.n(250, 3000); i++) qlm_off<__float128>(c); }
VF_SECTION("qlm_on") { for (int i = 0; i < c.n(300, 3000); i++) { qlm_on<double>(c); qlm_on<long double>(c); qlm_on<__float128>(c); } }

VF_SECTION("ylm") {
  auto &g = c.rng;
  for (int i = 0; i < c.n(6000, 60000); i++) {
    int l = g.integer(0, 30), m = g.integer(-l, l); double x = g.coin(0.1) ? g.pick({0.0, 1.0, -1.0, 0.5}) : g.coin(0.2) ? (1 - g.loguniform(1e-12, 0.1)) * (g.coin() ? 1 : -1) : g.uniform(-1, 1), phi = g.uniform(-7, 7);
    c.m.begin(vf::fmt("ylm l=%d m=%d x=%.17g phi=%.17g", l, m, x, phi));
    std::complex<double> y = spherical_harmonics(l, m, x, phi);
    q t = ref::theta(l, m, (q)x) / sqrtq(2 * M_PIq), re = t * cosq(m * (q)phi), im = t * sinq(m * (q)phi);
    // the library goes through acos(x): conditioning 1/sqrt(1-x^2)
    double amp = 1 + l * std::min(1 / std::sqrt(std::max(1 - x * x, 1e-16)), 1e8) * 0 + l * 2 + std::abs(m * phi), s1 = std::sqrt(std::max(0.0, 1 - x * x));
    // near the poles Y ~ s^m, s from acos with relative error eps/s^2
    double pol = s1 > 0 ? 1 + std::abs(m) / (s1 * s1) : 1;
    double tol = 1e-15 * (40 * amp * std::sqrt((2 * l + 1) / 12.0) + 4 * pol * std::fabs((double)t)) + 1e-14 * l;
    c.m.small("ylm.re", (long double)((q)y.real() - re), tol); c.m.small("ylm.im", (long double)((q)y.imag() - im), tol);
  }
}
template <class T> void bessel_case(vf::Ctx &c) {
  auto &g = c.rng; int L = g.integer(0, 24); T x = (T)(g.coin(0.5) ? g.loguniform(1e-4, 300) : g.uniform(0.3, 20));
  if (g.coin(0.1)) x = (T)(0.5 + g.uniform(-1e-6, 1e-6));
  c.m.begin(vf::fmt("bessel T=%s L=%d x=%.17g", Name<T>::n, L, (double)x));
  q X = (q)x, i = vfr::bessel_i(L, X), k = vfr::bessel_k(L, X);
  long double t = 60 + 30 * L + 8 * (long double)x; const q eps = (q)std::numeric_limits<T>::epsilon();
  auto cmp = [&](const char *key, T got, q want) { if (fabsq(want) < 1e-290Q || fabsq(want) > 1e290Q) return; c.m.small(std::string(key) + "." + Name<T>::n, (long double)(((q)got - want) / (eps * want)), t); };
  cmp("bessel.utils_i", utils::bessel_il<T>(x, L), i); cmp("bessel.utils_k", utils::bessel_kl<T>(x, L), k);
  cmp("bessel.math_i", math::bessel_il<T>(x, L), i); cmp("bessel.math_k", math::bessel_kl<T>(x, L), k);
  cmp("bessel.math_i_neg", math::bessel_il<T>(-x, L), L % 2 ? -i : i);
  Vec<T> v(3); v << x, x * T(0.5), -x; Vec<T> iv = math::bessel_il<T>(v, L), kv = math::bessel_kl<T>(Vec<T>(v.head(2)), L);
  c.m.require("bessel.vector_is_elementwise", iv.size() == 3 && kv.size() == 2 && iv(0) == math::bessel_il<T>(x, L) && iv(1) == math::bessel_il<T>(x * T(0.5), L) && iv(2) == math::bessel_il<T>(-x, L) && kv(0) == math::bessel_kl<T>(x, L) && kv(1) == math::bessel_kl<T>(x * T(0.5), L));
  c.m.require("bessel.origin", math::bessel_il<T>(T(0), L) == (L ? T(0) : T(1)));
}
VF_SECTION("bessel") { for (int i = 0; i < c.n(1500, 15000); i++) { bessel_case<double>(c); bessel_case<long double>(c); if (i % 3 == 0) bessel_case<_Float128>(c); } }

template <class T> void poly_case(vf::Ctx &c) {
  auto &g = c.rng; int lmax = g.integer(0, 40); int n = g.integer(1, 5); Vec<T> x(n); for (int i = 0; i < n; i++) x(i) = (T)(g.coin(0.2) ? g.pick({-1.0, 1.0, 0.0}) : g.uniform(-1, 1));
  c.m.begin(vf::fmt("legendre_batch T=%s lmax=%d x0=%.17g", Name<T>::n, lmax, (double)x(0)));
  Mat<T> P = legendre::legendre_batch<T>(lmax, x), D = legendre::dlegendre_batch<T>(lmax, x), D2 = legendre::d2legendre_batch<T>(lmax, x);
  const q eps = (q)std::numeric_limits<T>::epsilon();
  if (!c.m.require("lpoly.shape", P.rows() == n && P.cols() == lmax + 1 && D.rows() == n && D.cols() == lmax + 1 && D2.rows() == n && D2.cols() == lmax + 1)) return;
  for (int i = 0; i < n; i++) for (int l = 0; l <= lmax; l++) {
    // derivatives through expansions: P' = sum (2k+1) P_k over k = l-1, l-3, ...
    q X = (q)x(i), d = 0, d2 = 0; for (int k = l - 1; k >= 0; k -= 2) { d += (2 * k + 1) * ref::legendreP(k, X); q dk = 0; for (int j = k - 1; j >= 0; j -= 2) dk += (2 * j + 1) * ref::legendreP(j, X); d2 += (2 * k + 1) * dk; }
    c.m.small("lpoly.value", (long double)(((q)P(i, l) - ref::legendreP(l, X)) / eps), 10.0L * (l + 1), vf::fmt("l=%d", l));
    c.m.small("lpoly.first", (long double)(((q)D(i, l) - d) / eps), 10.0L * (l + 1) * (l + 1) * (l + 1) * .5L, vf::fmt("l=%d", l));
    c.m.small("lpoly.second", (long double)(((q)D2(i, l) - d2) / eps), 5.0L * powl(l + 1, 5), vf::fmt("l=%d", l));
  }
  T y = (T)g.loguniform(1e-6, 1e6), z = T(1) + (T)g.loguniform(1e-6, 1e6);
  auto rel = [&](const char *k, T got, q want, q amp) { c.m.small(k, (long double)(((q)got - want) / (eps * fabsq(want) * amp)), 16); };
  rel("math.arsinh", math::arsinh<T>(g.coin() ? y : -y) < 0 ? -math::arsinh<T>(-y) : math::arsinh<T>(y), asinhq((q)y), 1);
  rel("math.arcosh", math::arcosh<T>(z), acoshq((q)z), 1);
  c.m.require("math.arcosh_clamps", math::arcosh<T>(T(1) - std::numeric_limits<T>::epsilon()) == T(0));
  if constexpr (std::is_same_v<T, double>) c.m.require("utils.arcosh", std::fabs(utils::arcosh(z) - (double)acoshq((q)z)) <= 1e-13 * (double)acoshq((q)z) + 1e-14 && utils::arcosh(1.0) == 0.0);
}
VF_SECTION("legendre_poly") { for (int i = 0; i < c.n(400, 4000); i++) { poly_case<double>(c); poly_case<long double>(c); if (i % 4 == 0) poly_case<_Float128>(c); } }

template <class T> void phi_case(vf::Ctx &c) {
  auto &g = c.rng; int L = g.integer(0, 10); T X = (T)g.loguniform(0.02, 12), x = X * (T)(g.coin(0.1) ? 1.0 : g.loguniform(g.coin(0.3) ? 1e-5 : 0.01, 1)); T s = std::min(T(0.4) + T(0.2) * T(L), T(2.5));
  if (g.coin(0.25)) { x = s * (T)g.uniform(0.98, 1.02); if (x > X) X = x * (T)g.uniform(1, 3); }
  c.m.begin(vf::fmt("erfc_expn T=%s L=%d X=%.12g x=%.12g", Name<T>::n, L, (double)X, (double)x));
  T got = erfc_expn::Phi<T>(L, X, x), sw = erfc_expn::Phi<T>(L, x, X); q r = phi_ref(L, (q)X, (q)x);
  q sc = powq((q)x / (q)X, L) / (q)X; bool shortr = x < s || X < T(0.5);
  c.m.require("erfc_expn.symmetric", got == sw);
  // the general expansion cancels at small arguments and high order; the series does not
  c.m.small(vf::fmt("erfc_expn.%s%s", Name<T>::n, shortr ? ".series" : ""), (long double)(fabsq((q)got - r) / sc), shortr ? 1e3L * (long double)std::numeric_limits<T>::epsilon() : std::is_same_v<T, double> ? 1e-10L : std::is_same_v<T, long double> ? 1e-14L : 1e-28L);
}
VF_SECTION("erfc_double") { for (int i = 0; i < c.n(1000, 10000); i++) phi_case<double>(c); }
VF_SECTION("erfc_wide") { for (int i = 0; i < c.n(300, 3000); i++) { phi_case<long double>(c); phi_case<_Float128>(c); } }
VF_MAIN
