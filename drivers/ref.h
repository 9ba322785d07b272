// Independent reference mathematics used as oracles (nothing here calls HelFEM).
#pragma once
#include <quadmath.h>
#include <cmath>
#include <map>
#include <mutex>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace ref {
typedef __float128 q;

// Gauss-Legendre nodes/weights on [-1,1] in quad precision (cached)
inline const std::pair<std::vector<q>, std::vector<q>> &gauss(int n) {
  static std::map<int, std::pair<std::vector<q>, std::vector<q>>> cache;
  static std::mutex mx;
  std::lock_guard<std::mutex> g(mx);
  auto it = cache.find(n);
  if (it != cache.end()) return it->second;
  std::vector<q> x(n), w(n);
  for (int i = 0; i < n; i++) {
    q z = cosq(M_PIq * (i + 0.75Q) / (n + 0.5Q)), pp = 0;
    for (int itn = 0; itn < 100; itn++) {
      q p1 = 1, p2 = 0;
      for (int j = 1; j <= n; j++) { q p3 = p2; p2 = p1; p1 = ((2 * j - 1) * z * p2 - (j - 1) * p3) / j; }
      pp = n * (z * p1 - p2) / (z * z - 1);
      q dz = p1 / pp;
      z -= dz;
      if (fabsq(dz) < 1e-33Q) break;
    }
    q p1 = 1, p2 = 0;
    for (int j = 1; j <= n; j++) { q p3 = p2; p2 = p1; p1 = ((2 * j - 1) * z * p2 - (j - 1) * p3) / j; }
    pp = n * (z * p1 - p2) / (z * z - 1);
    x[n - 1 - i] = z;
    w[n - 1 - i] = 2 / ((1 - z * z) * pp * pp);
  }
  return cache[n] = {x, w};
}
// same in long double / double
template <class T> struct GL { std::vector<T> x, w; };
template <class T> const GL<T> &gl(int n) {
  static std::map<int, GL<T>> c;
  static std::mutex mx;
  const auto &g = gauss(n);
  std::lock_guard<std::mutex> l(mx);
  auto it = c.find(n);
  if (it != c.end()) return it->second;
  GL<T> r;
  for (int i = 0; i < n; i++) { r.x.push_back((T)g.first[i]); r.w.push_back((T)g.second[i]); }
  return c[n] = r;
}

// plain Gauss-Legendre integral of f over [a,b]
template <class F> q integrate(F f, q a, q b, int n) {
  const auto &g = gauss(n);
  q s = 0, m = (a + b) / 2, h = (b - a) / 2;
  for (int i = 0; i < n; i++) s += g.second[i] * f(m + h * g.first[i]);
  return s * h;
}
// composite rule over [a,b] split in p panels
template <class F> q integrate(F f, q a, q b, int n, int p) {
  q s = 0;
  for (int i = 0; i < p; i++) s += integrate(f, a + (b - a) * i / p, a + (b - a) * (i + 1) / p, n);
  return s;
}
// tanh-sinh over (a,b): tolerates endpoint singularities
template <class F> q tanhsinh(F f, q a, q b, int N = 220, q tmax = 4.2Q) {
  q h = tmax / N, s = 0;
  for (int k = -N; k <= N; k++) {
    q t = k * h, u = M_PI_2q * sinhq(t);
    q x = tanhq(u), w = M_PI_2q * coshq(t) / (coshq(u) * coshq(u));
    // distance from the nearer end, without cancellation
    q e = 1 / (expq(fabsq(u)) * coshq(u));
    q r = (k < 0) ? a + (b - a) / 2 * e : ((k > 0) ? b - (b - a) / 2 * e : (a + b) / 2);
    if (r <= a || r >= b) continue;
    s += w * f(r);
  }
  return s * h * (b - a) / 2;
}

inline q factorial(int n) { q f = 1; for (int i = 2; i <= n; i++) f *= i; return f; }
inline q dfact(int n) { q f = 1; for (int i = n; i > 1; i -= 2) f *= i; return f; }

// Legendre polynomial
inline q legendreP(int n, q x) {
  if (n == 0) return 1;
  q a = 1, b = x;
  for (int k = 2; k <= n; k++) { q t = ((2 * k - 1) * x * b - (k - 1) * a) / k; a = b; b = t; }
  return b;
}
// associated Legendre P_l^m(x), Condon-Shortley phase, |x|<=1, m>=0
inline q assocP(int l, int m, q x) {
  if (m > l) return 0;
  q pmm = 1, s = sqrtq((1 - x) * (1 + x));
  for (int i = 1; i <= m; i++) pmm *= -(2 * i - 1) * s;
  if (l == m) return pmm;
  q p1 = x * (2 * m + 1) * pmm;
  if (l == m + 1) return p1;
  q p = 0;
  for (int k = m + 2; k <= l; k++) { p = (x * (2 * k - 1) * p1 - (k + m - 1) * pmm) / (k - m); pmm = p1; p1 = p; }
  return p;
}
// normalised Theta_lm(x), int_-1^1 Theta^2 dx = 1; any sign of m (CS phase: Y_l-m = (-1)^m conj Y_lm)
inline q theta(int l, int m, q x) {
  int am = m < 0 ? -m : m;
  if (am > l) return 0;
  // stable normalised recurrence
  q s = sqrtq((1 - x) * (1 + x));
  q pmm = sqrtq(0.5Q);
  for (int i = 1; i <= am; i++) pmm *= -sqrtq((2 * i + 1) / (q)(2 * i)) * s;
  q r;
  if (l == am) r = pmm;
  else {
    q p1 = x * sqrtq((q)(2 * am + 3)) * pmm;
    if (l == am + 1) r = p1;
    else {
      q p = 0;
      for (int k = am + 2; k <= l; k++) {
        q a = sqrtq((4 * (q)k * k - 1) / ((q)k * k - (q)am * am));
        q b = sqrtq((((q)(k - 1)) * (k - 1) - (q)am * am) / (4 * (q)(k - 1) * (k - 1) - 1));
        p = a * (x * p1 - b * pmm);
        pmm = p1; p1 = p;
      }
      r = p;
    }
  }
  if (m < 0 && (am & 1)) r = -r;
  return r;
}
// int Y*_{l1m1} Y_{l2m2} Y_{l3m3}  (zero unless m1=m2+m3)
inline q gaunt(int l1, int m1, int l2, int m2, int l3, int m3) {
  if (m1 != m2 + m3) return 0;
  if (std::abs(m1) > l1 || std::abs(m2) > l2 || std::abs(m3) > l3) return 0;
  int L = l1 + l2 + l3;
  const auto &g = gauss(L / 2 + 2);
  q s = 0;
  for (size_t i = 0; i < g.first.size(); i++) {
    q x = g.first[i];
    s += g.second[i] * theta(l1, m1, x) * theta(l2, m2, x) * theta(l3, m3, x);
  }
  return s / sqrtq(2 * M_PIq);
}
inline std::string str(q v) { char b[80]; quadmath_snprintf(b, sizeof b, "%.25Qg", v); return b; }
}  // namespace ref
