// Quad-precision reference shape functions from their defining interpolation
// conditions, evaluated with truncated Taylor series (jets).
#pragma once
#include "ref.h"
namespace ref {
typedef std::vector<q> jet;  // Taylor coefficients in t around x
inline jet jmul(const jet &a, const jet &b) {
  jet r(a.size(), 0);
  for (size_t i = 0; i < a.size(); i++) if (a[i] != 0) for (size_t j = 0; i + j < a.size(); j++) r[i + j] += a[i] * b[j];
  return r;
}
inline jet jlin(q v, q s, int K) { jet r(K + 1, 0); r[0] = v; if (K > 0) r[1] = s; return r; }

struct Prim {
  int id = 0;                 // 3 Legendre, 4 LIP, 5 HIP, 8 HIP2, 9 HIP3
  std::vector<q> x0;          // nodes (LIP/HIP family); ignored for Legendre
  int nn = 0;
  int per() const { return id == 5 ? 2 : id == 8 ? 3 : id == 9 ? 4 : 1; }
  int nprim() const { return per() * nn; }
  int degree() const { return per() * nn - 1; }
  jet lip(int i, q x, int K) const {
    jet r(K + 1, 0); r[0] = 1;
    for (int j = 0; j < nn; j++) if (j != i) { q d = x0[i] - x0[j]; r = jmul(r, jlin((x - x0[j]) / d, 1 / d, K)); }
    return r;
  }
  // jet in the reference coordinate of shape function f at x, element half-length e
  jet eval(int f, q x, int K, q e) const {
    if (id == 3) {
      int N = nn - 1;
      if (f == 0) return jlin((1 - x) / 2, -0.5Q, K);
      if (f == N) return jlin((1 + x) / 2, 0.5Q, K);
      // (P_{f+1}-P_{f-1})/sqrt(4f+2) by jet recurrence
      jet a(K + 1, 0), b = jlin(x, 1, K), xx = b; a[0] = 1;
      std::vector<jet> P{a, b};
      for (int k = 2; k <= f + 1; k++) {
        jet t = jmul(xx, P[k - 1]);
        for (int i = 0; i <= K; i++) t[i] = ((2 * k - 1) * t[i] - (k - 1) * P[k - 2][i]) / k;
        P.push_back(t);
      }
      jet r(K + 1);
      for (int i = 0; i <= K; i++) r[i] = (P[f + 1][i] - P[f - 1][i]) / sqrtq((q)(4 * f + 2));
      return r;
    }
    int p = per(), node = f / p, d = f % p;
    jet L = lip(node, x, K);
    if (p == 1) return L;
    // H = L^p * Q(x - xi), Q = sum_{k=d}^{p-1} a_k s^k with series of s^d/d! / L(xi+s)^p
    jet Li = lip(node, x0[node], p - 1), Lp(p, 0); Lp[0] = 1;
    for (int k = 0; k < p; k++) Lp = jmul(Lp, Li);
    jet inv(p, 0); inv[0] = 1 / Lp[0];
    for (int k = 1; k < p; k++) { q s = 0; for (int m = 1; m <= k; m++) s += Lp[m] * inv[k - m]; inv[k] = -s / Lp[0]; }
    jet Q(p, 0);
    for (int k = d; k < p; k++) Q[k] = inv[k - d] / factorial(d);
    jet s = jlin(x - x0[node], 1, K), acc(K + 1, 0), pw(K + 1, 0); pw[0] = 1;
    for (int k = 0; k < p; k++) { for (int i = 0; i <= K; i++) acc[i] += Q[k] * pw[i]; pw = jmul(pw, s); }
    for (int k = 0; k < p; k++) acc = jmul(acc, L);
    q sc = powq(e, d);
    for (auto &v : acc) v *= sc;
    return acc;
  }
  // n-th r-derivative at reference coordinate x
  q dn(int f, q x, int n, q e) const { return eval(f, x, n, e)[n] * factorial(n) / powq(e, n); }
  // n-th r-derivative of B/r, r = e (x+1), for a function vanishing at x=-1
  q over_r(int f, q x, int n, q e) const {
    int D = degree();
    if (x + 1 < 0.25Q) {
      jet b = eval(f, -1, D, e);      // full Taylor expansion at -1 (exact polynomial)
      q s = 0, h = x + 1;
      for (int k = D; k >= n + 1; k--) {  // coefficient of t^{k-1} after division by t
        q c = b[k]; int p = k - 1;
        for (int m = 0; m < n; m++) c *= (p - m);
        s += c * powq(h, p - n);
      }
      return s / powq(e, n + 1);
    }
    jet b = eval(f, x, n, e), inv(n + 1);
    q h = x + 1; inv[0] = 1 / h;
    for (int k = 1; k <= n; k++) inv[k] = -inv[k - 1] / h;
    return jmul(b, inv)[n] * factorial(n) / powq(e, n + 1);
  }
};
}  // namespace ref
