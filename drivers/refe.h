// Reference finite element space in quad precision, built only from the
// definition (nodes, element boundaries, boundary conditions).
#pragma once
#include "refpoly.h"
#include <algorithm>
#include <functional>
namespace ref {
struct FE {
  Prim p;
  std::vector<q> b;                       // element boundaries
  std::vector<std::vector<int>> loc, glo; // per element: primitive index, global index
  int nbf = 0;
  void setup(bool lf, bool ld, bool rf, bool rd) {
    int E = (int)b.size() - 1, np = p.nprim(), per = p.per(), next = 0;
    loc.assign(E, {}); glo.assign(E, {});
    std::vector<int> lastg;
    for (int e = 0; e < E; e++) {
      std::vector<int> mine(np, -1);
      for (int j = 0; j < np; j++) {
        bool drop = false;
        if (e == 0) { if (j == 0) drop = lf; else if (j < per) drop = ld; }
        if (e == E - 1) { int k = j - (np - per); if (k == 0) drop |= rf; else if (k > 0) drop |= rd; }
        if (drop) continue;
        int g;
        if (e > 0 && j < per) g = lastg[j]; else g = next++;
        mine[j] = g; loc[e].push_back(j); glo[e].push_back(g);
      }
      lastg.assign(mine.end() - per, mine.end());
    }
    nbf = next;
  }
  int nel() const { return (int)b.size() - 1; }
  q half(int e) const { return (b[e + 1] - b[e]) / 2; }
  q mid(int e) const { return (b[e + 1] + b[e]) / 2; }
  q xof(int e, q r) const { return (r - mid(e)) / half(e); }
  int find(q r) const { for (int e = 0; e < nel(); e++) if (r <= b[e + 1]) return e; return nel() - 1; }
  // n-th r-derivative of all functions of element e at reference x
  std::vector<q> eval(int e, q x, int n) const {
    std::vector<q> v; for (int j : loc[e]) v.push_back(p.dn(j, x, n, half(e))); return v;
  }
  // d^n/dr^n of B/r
  std::vector<q> evalR(int e, q x, int n) const {
    std::vector<q> v;
    for (int j : loc[e]) {
      if (b[e] == 0) { v.push_back(p.over_r(j, x, n, half(e))); continue; }
      jet B = p.eval(j, x, n, half(e)), inv(n + 1);
      q r = mid(e) + half(e) * x, h = half(e);
      inv[0] = 1 / r; for (int k = 1; k <= n; k++) inv[k] = -inv[k - 1] * h / r;
      v.push_back(jmul(B, inv)[n] * factorial(n) / powq(h, n));
    }
    return v;
  }
  typedef std::function<q(q)> fn;
  typedef std::function<std::vector<q>(int, q)> ev;
  // sum_e int lh(e,x) f(r) rh(e,x) dr with Gauss-Legendre (order n, elements split at brk)
  std::vector<std::vector<q>> matrix(ev lh, ev rh, fn f, int n, const std::vector<q> &brk = {}, q rlo = -1e300Q, q rhi = 1e300Q) const {
    std::vector<std::vector<q>> M(nbf, std::vector<q>(nbf, 0));
    for (int e = 0; e < nel(); e++) element(M, e, lh, rh, f, n, brk, rlo, rhi);
    return M;
  }
  void element(std::vector<std::vector<q>> &M, int e, ev lh, ev rh, fn f, int n, const std::vector<q> &brk, q rlo = -1e300Q, q rhi = 1e300Q) const {
    std::vector<q> pts; q lo = b[e] < rlo ? rlo : b[e], hi = b[e + 1] > rhi ? rhi : b[e + 1];
    if (!(hi > lo)) return;
    pts.push_back(lo); for (q t : brk) if (t > lo && t < hi) pts.push_back(t); pts.push_back(hi);
    std::sort(pts.begin(), pts.end());
    const auto &g = gauss(n);
    for (size_t s = 0; s + 1 < pts.size(); s++)
      for (int i = 0; i < n; i++) {
        q r = (pts[s] + pts[s + 1]) / 2 + (pts[s + 1] - pts[s]) / 2 * g.first[i], w = g.second[i] * (pts[s + 1] - pts[s]) / 2;
        q x = xof(e, r);
        auto L = lh(e, x), R = rh(e, x);
        q wf = w * (f ? f(r) : (q)1);
        for (size_t a = 0; a < L.size(); a++) { q l = L[a] * wf; auto &row = M[glo[e][a]]; for (size_t c = 0; c < R.size(); c++) row[glo[e][c]] += l * R[c]; }
      }
  }
  ev B(int n) const { return [this, n](int e, q x) { return eval(e, x, n); }; }
  ev R(int n) const { return [this, n](int e, q x) { return evalR(e, x, n); }; }
};
typedef std::vector<std::vector<q>> qmat;
}  // namespace ref
