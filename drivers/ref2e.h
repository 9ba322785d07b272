// reference radial two-electron tensors and single-multipole J/K contraction (quad precision)
#pragma once
#include "refrad.h"
#include "refspec.h"
typedef std::vector<std::vector<vfr::q>> qm;
using vfr::q;
// radial kernel g(r<) h(r>), separable
struct Kern { std::function<q(q)> small, big; };
inline Kern coul(int L) { return {[L](q r) { return powq(r, L); }, [L](q r) { return powq(r, -L - 1); }}; }
inline Kern yuk(int L, q lam) { return {[=](q r) { return vfr::bessel_i(L, lam * r); }, [=](q r) { return vfr::bessel_k(L, lam * r); }}; }

// in-element tensor T(ab,cd) = int int Ba Bb small(r<) big(r>) Bc Bd, by nested Gauss quadrature
inline qm in_element(const ref::FE &R, int e, const Kern &k, int n) {
  n = 14 + 2 * R.p.nprim() + 10; int ni = R.p.nprim() + 14; if (n < 26) n = 26;
  int nb = R.glo[e].size(), N2 = nb * nb;
  qm T(N2, std::vector<q>(N2, 0));
  const auto &g = ref::gauss(n);
  std::vector<q> pts{R.b[e]};
  if (R.b[e] == 0) for (q t = R.b[e + 1] / 64; t < R.b[e + 1] * 0.99Q; t *= 2) pts.push_back(t);
  else for (q t = R.b[e] * 1.6Q; t < R.b[e + 1] * 0.95Q; t *= 1.6Q) pts.push_back(t);
  pts.push_back(R.b[e + 1]);
  std::vector<q> inner(N2, 0), at(N2);
  auto prods = [&](q r, std::vector<q> &o) { auto v = R.eval(e, R.xof(e, r), 0); for (int b = 0; b < nb; b++) for (int a = 0; a < nb; a++) o[b * nb + a] = v[a] * v[b]; };
  std::vector<q> pr(N2);
  q last = R.b[e];
  for (size_t s = 0; s + 1 < pts.size(); s++)
    for (int i = 0; i < n; i++) {
      q r = (pts[s] + pts[s + 1]) / 2 + (pts[s + 1] - pts[s]) / 2 * g.first[i], w = g.second[i] * (pts[s + 1] - pts[s]) / 2;
      // advance inner integral from last to r
      q h = (r - last) / 2, m = (r + last) / 2;
      const auto &gi = ref::gauss(ni);
      for (int j = 0; j < ni; j++) { q rr = m + h * gi.first[j]; prods(rr, pr); q ww = h * gi.second[j] * k.small(rr); for (int x = 0; x < N2; x++) inner[x] += ww * pr[x]; }
      last = r;
      prods(r, at); q wb = w * k.big(r);
      for (int x = 0; x < N2; x++) { q o = at[x] * wb; for (int y = 0; y < N2; y++) T[x][y] += o * inner[y]; }
    }
  qm S = T;
  for (int x = 0; x < N2; x++) for (int y = 0; y < N2; y++) S[x][y] = T[x][y] + T[y][x];
  return S;
}
struct Ref2e {
  std::vector<qm> tei, sm, bg;   // per element
};
inline qm elblock(const ref::FE &R, int e, std::function<q(q)> f) {
  qm M(R.nbf, std::vector<q>(R.nbf, 0)); auto gb = vfr::geo(R);
  R.element(M, e, R.B(0), R.B(0), f, 40, gb);
  int nb = R.glo[e].size(); qm o(nb, std::vector<q>(nb));
  for (int a = 0; a < nb; a++) for (int b = 0; b < nb; b++) o[a][b] = M[R.glo[e][a]][R.glo[e][b]];
  return o;
}
inline Ref2e build(const ref::FE &R, const Kern &k) {
  Ref2e o;
  for (int e = 0; e < R.nel(); e++) { o.tei.push_back(in_element(R, e, k, 24)); o.sm.push_back(elblock(R, e, k.small)); o.bg.push_back(e ? elblock(R, e, k.big) : qm()); }
  return o;
}
// J_ab = sum_cd (ab|cd) P_dc ; K_ac = sum_bd (ab|cd) P_bd
inline void jk(const ref::FE &R, const Ref2e &t, const qm &P, qm &J, qm &K) {
  J.assign(R.nbf, std::vector<q>(R.nbf, 0)); K = J;
  for (int e = 0; e < R.nel(); e++) for (int f = 0; f < R.nel(); f++) {
    auto &A = R.glo[e], &C = R.glo[f]; int na = A.size(), nc = C.size();
    for (int a = 0; a < na; a++) for (int b = 0; b < na; b++) for (int c = 0; c < nc; c++) for (int d = 0; d < nc; d++) {
      q v = e == f ? t.tei[e][b * na + a][d * na + c] : e < f ? t.sm[e][a][b] * t.bg[f][c][d] : t.bg[e][a][b] * t.sm[f][c][d];
      J[A[a]][A[b]] += v * P[C[d]][C[c]];
      K[A[a]][C[c]] += v * P[A[b]][C[d]];
    }
  }
}
template <class T> helfem::Mat<T> rnd(vf::Rng &g, int n, int kind) {
  helfem::Mat<T> M(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) M(i, j) = (T)g.gauss();
  if (kind == 0) M = (M + M.transpose()).eval();                 // symmetric
  if (kind == 1) { helfem::Mat<T> C = M.leftCols(std::min(n, 2)); M = C * C.transpose(); }  // low-rank density
  return M;                                                       // kind 2: general
}
template <class T> qm toq(const helfem::Mat<T> &M) { qm o(M.rows(), std::vector<q>(M.cols())); for (int i = 0; i < M.rows(); i++) for (int j = 0; j < M.cols(); j++) o[i][j] = (q)M(i, j); return o; }

