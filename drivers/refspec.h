// reference special functions
#pragma once
#include "ref.h"
#include "refpoly.h"
using ref::q;
// Phi_L(X,x) = (2L+1)/2 int_{-1}^{1} erfc(s)/s P_L(t) dt, s^2 = X^2+x^2-2Xxt; substitution s -> smooth integrand
inline q phi_ref(int L, q X, q x) {
  // Rodrigues: every term is positive, so the reference is accurate relative to the value itself
  // Phi_n = (2n+1)/(n! sqrt(pi)) (X x)^{n-1} int_{X-x}^{X+x} (1-t^2)^n I_n(u^2) u du, I_n(s) = int_1^inf v^{2n} exp(-s v^2) dv
  if (X < x) std::swap(X, x);
  q lo = X - x, hi = X + x, s = 0; const auto &g = ref::gauss(40); std::vector<q> pts{lo};
  for (q u = lo; u < hi;) { u = std::min(hi, lo > 0 ? std::min((q)(u * 1.8Q), (q)(u + (q)0.35Q)) : u + std::min((q)0.35Q, (q)(hi / 4))); pts.push_back(u); }
  for (q &u : pts) u = (u - lo) / x; pts.back() = 2;
  for (size_t p = 0; p + 1 < pts.size(); p++) { q a = pts[p], b = pts[p + 1];
    for (int i = 0; i < 40; i++) { q z = (a + b) / 2 + (b - a) / 2 * g.first[i], u = lo + x * z, u2 = u * u, e = expq(-u2), I = sqrtq(M_PIq) * erfcq(u) / (2 * u);
      for (int n = 1; n <= L; n++) I = (e + (2 * n - 1) * I) / (2 * u2);
      s += g.second[i] * (b - a) / 2 * x * I * u * powq(z * (u + lo) * (2 - z) * (hi + u) / (4 * X * X), L); } }
  q f = (2 * L + 1) / sqrtq(M_PIq) * powq(X * x, L - 1); for (int n = 2; n <= L; n++) f /= n;
  return f * s;
}
// Legendre functions of the second kind off the cut, x = 1 + d with d > 0, from the integral representation
// Q_l^m = (x^2-1)^{m/2} (-1)^m (l+m)!/l! 2^{-l-1} int_{-1}^{1} (1-t^2)^l (x-t)^{-l-m-1} dt
inline q Qoff(int l, int m, q d, int N = 260) {
  // u = 1-t in (0,2): x-t = d+u ; map u = 2 y/(1+y..) is avoided: tanh-sinh with exact distance from t=1
  q s = 0; const q tmax = 4.4Q, h = tmax / N;
  q pre = (m % 2 ? -1 : 1) * powq(d * (2 + d), m / 2.0Q) * powq(2, -l - 1);
  for (int i = 1; i <= m; i++) pre *= l + i;
  // for tiny d the integrand peaks at u ~ d: substitute u = (d+2)^{a} ... -> logarithmic variable v = log((d+u)/d)
  q V = logq((d + 2) / d);
  for (int k = -N; k <= N; k++) {
    q t = k * h, su = M_PI_2q * sinhq(t), w = M_PI_2q * coshq(t) / (coshq(su) * coshq(su));
    q e = 1 / (expq(fabsq(su)) * coshq(su));            // distance to the nearer end of [-1,1]
    q vlo = k <= 0 ? V / 2 * e : V - V / 2 * e;          // v in (0,V)
    q vhi = k <= 0 ? V - vlo : V / 2 * e;                // V - v
    q u = k <= 0 ? d * expm1q(vlo) : (d + 2) * expq(-vhi) - d, z = k <= 0 ? 2 - u : -(d + 2) * expm1q(-vhi);
    if (k <= 0 && u > 1) z = -(d + 2) * expm1q(-vhi);
    if (!(u > 0) || !(z > 0)) continue;
    q D = d + u;                                         // dt = D dv
    s += w * powq(u * z, l) * powq(D, -l - m);
  }
  return pre * s * h * V / 2;
}
// on the cut: Q_l^m = (-1)^m (1-x^2)^{m/2} d^m/dx^m Q_l
inline std::vector<q> Qcut_column(int lmax, int m, q x) {
  // Taylor coefficients about x up to order m of Q_0 = atanh and the Bonnet recurrence on truncated series
  int n = m + 1;
  auto mul_x = [&](const std::vector<q> &a) { std::vector<q> r(n); for (int i = 0; i < n; i++) r[i] = x * a[i] + (i ? a[i - 1] : (q)0); return r; };
  std::vector<q> q0(n, 0), a(n, 0), b(n, 0); q0[0] = atanhq(x);
  // derivative of atanh: 1/(1-y^2), series of 1/((1-x^2) - 2x h - h^2)
  std::vector<q> g(n, 0); q c0 = 1 - x * x;
  for (int i = 0; i < n; i++) { q s = i == 0 ? 1 : 0; if (i >= 1) s += 2 * x * g[i - 1]; if (i >= 2) s += g[i - 2]; g[i] = s / c0; }
  for (int i = 1; i < n; i++) q0[i] = g[i - 1] / i;
  std::vector<q> out(lmax + 1); q f = (m % 2 ? -1 : 1) * powq(c0, m / 2.0Q) * ref::factorial(m);
  out[0] = f * q0[m]; if (lmax == 0) return out;
  a = q0; b = mul_x(q0); b[0] -= 1; out[1] = f * b[m];
  for (int l = 1; l < lmax; l++) { auto xb = mul_x(b); std::vector<q> t(n); for (int i = 0; i < n; i++) t[i] = ((2 * l + 1) * xb[i] - l * a[i]) / (l + 1); a = b; b = t; out[l + 1] = f * b[m]; }
  return out;
}
// Legendre functions of the first kind off the cut (Hobson), P_l^m = (x^2-1)^{m/2} d^m P_l/dx^m, all terms positive for x>1
inline q Poff(int l, int m, q x) {
  if (m > l) return 0;
  q w = sqrtq((x - 1) * (x + 1)), pmm = 1; for (int i = 1; i <= m; i++) pmm *= (2 * i - 1) * w;
  if (l == m) return pmm;
  q p1 = x * (2 * m + 1) * pmm;
  for (int k = m + 2; k <= l; k++) { q p = (x * (2 * k - 1) * p1 - (k + m - 1) * pmm) / (k - m); pmm = p1; p1 = p; }
  return p1;
}
