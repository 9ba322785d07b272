// P14: diatomic Coulomb and exchange matrices against an independent Neumann contraction
#include "refdia.h"
#include "refspec.h"
#include <Eigen/Cholesky>
#include <map>
#include <set>
using namespace helfem;
using ref::q;
typedef long double ld;

// spectral cumulative integration on a graded mesh in mu
struct Mesh {
  int n; std::vector<q> x, w; std::vector<std::vector<q>> C;    // reference nodes, weights, C[i][j] = int_{-1}^{x_i} l_j
  std::vector<q> lo, hi; std::vector<int> el;                   // intervals
  std::vector<q> mu, wt; std::vector<int> iv;
  void build(const ref::FE &R, int n_) {
    n = n_; const auto &g = ref::gauss(n); x = g.first; w = g.second;
    // cumulative integrals of the Lagrange polynomials through the exact Legendre expansion: l_j = sum_k (2k+1)/2 w_j P_k(x_j) P_k
    C.assign(n, std::vector<q>(n, 0));
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { q s = 0; for (int k = 0; k < n; k++) { q I = k == 0 ? x[i] + 1 : (ref::legendreP(k + 1, x[i]) - ref::legendreP(k - 1, x[i])) / (2 * k + 1); s += (2 * k + 1) / 2.0Q * w[j] * ref::legendreP(k, x[j]) * I; } C[i][j] = s; }
    for (int e = 0; e < R.nel(); e++) {
      std::vector<q> pts{R.b[e]}; q L = R.b[e + 1] - R.b[e];
      if (e == 0) { for (int k = 26; k >= 1; k--) pts.push_back(L * powq(2, -k)); pts.push_back(3 * L / 8); pts.push_back(5 * L / 8); pts.push_back(3 * L / 4); pts.push_back(7 * L / 8); std::sort(pts.begin(), pts.end()); } else { for (int k = 1; k < 5; k++) pts.push_back(R.b[e] + L * k / 5); }
      pts.push_back(R.b[e + 1]);
      for (size_t s = 0; s + 1 < pts.size(); s++) { lo.push_back(pts[s]); hi.push_back(pts[s + 1]); el.push_back(e); for (int i = 0; i < n; i++) { mu.push_back((pts[s] + pts[s + 1]) / 2 + (pts[s + 1] - pts[s]) / 2 * x[i]); wt.push_back(w[i] * (pts[s + 1] - pts[s]) / 2); iv.push_back((int)lo.size() - 1); } }
    }
  }
  // out[p] = A[p] * int_0^{mu_p} B f + B[p] * int_{mu_p}^{inf} A f   (A = Q, B = P)
  void green(const std::vector<ld> &A, const std::vector<ld> &B, const std::vector<ld> &f, std::vector<ld> &out) const {
    int N = (int)mu.size(), ni = (int)lo.size(); out.assign(N, 0); std::vector<ld> tb(ni, 0), ta(ni, 0);
    for (int p = 0; p < N; p++) { tb[iv[p]] += (ld)wt[p] * B[p] * f[p]; ta[iv[p]] += (ld)wt[p] * A[p] * f[p]; }
    std::vector<ld> below(ni, 0), above(ni, 0); for (int s = 1; s < ni; s++) below[s] = below[s - 1] + tb[s - 1]; for (int s = ni - 2; s >= 0; s--) above[s] = above[s + 1] + ta[s + 1];
    for (int s = 0; s < ni; s++) { ld h = (ld)(hi[s] - lo[s]) / 2; for (int i = 0; i < n; i++) { ld b = 0, a = 0; for (int j = 0; j < n; j++) { ld c = (ld)C[i][j] * h; b += c * B[s * n + j] * f[s * n + j]; a += c * A[s * n + j] * f[s * n + j]; } int p = s * n + i; out[p] = A[p] * (below[s] + b) + B[p] * (above[s] + ta[s] - a); } }
  }
};
struct TEI {
  vfd::DB a; int nr, np; std::vector<std::pair<int, int>> pr; int Lmax, Mmax;
  std::map<std::pair<int, int>, std::vector<ld>> T;      // (L,|M|) -> [ch1][ch2][pair][pair]
  std::vector<std::vector<int>> pid;
  ld radial(int L, int M, int c1, int c2, int i, int j, int k, int l) const { const auto &t = T.at({L, M}); return t[((c1 * 2 + c2) * np + pid[i][j]) * np + pid[k][l]]; }
  void build(const vfd::DB &d) {
    a = d; nr = a.R.nbf; pid.assign(nr, std::vector<int>(nr)); for (int i = 0; i < nr; i++) for (int j = i; j < nr; j++) { pid[i][j] = pid[j][i] = (int)pr.size(); pr.push_back({i, j}); } np = (int)pr.size();
    Mesh me; me.build(a.R, 14); int N = (int)me.mu.size();
    std::vector<std::vector<ld>> f0(np, std::vector<ld>(N, 0)), f2 = f0;
    for (int p = 0; p < N; p++) { int e = me.el[me.iv[p]]; auto b = a.R.eval(e, a.R.xof(e, me.mu[p]), 0); q s = sinhq(me.mu[p]), c = coshq(me.mu[p]); std::vector<q> v(nr, 0); for (size_t k = 0; k < b.size(); k++) v[a.R.glo[e][k]] = b[k];
      for (int t = 0; t < np; t++) { q f = v[pr[t].first] * v[pr[t].second] * s; f2[t][p] = (ld)f; f0[t][p] = (ld)(f * c * c); } }
    std::set<std::pair<int, int>> lm; for (int i = 0; i < a.nang(); i++) for (int j = 0; j < a.nang(); j++) { int M = std::abs(a.m[i] - a.m[j]); for (int L = M; L <= a.l[i] + a.l[j] + 2; L++) lm.insert({L, M}); }
    for (auto &k : lm) {
      int L = k.first, M = k.second; std::vector<ld> A(N), B(N); for (int p = 0; p < N; p++) { q h = sinhq(me.mu[p] / 2), d = 2 * h * h; A[p] = (ld)Qoff_fast(L, M, d); B[p] = (ld)Poff_d(L, M, d); }
      auto &t = T[k]; t.assign(4 * np * np, 0); std::vector<std::vector<ld>> g0(np), g2(np); for (int c = 0; c < np; c++) { me.green(A, B, f0[c], g0[c]); me.green(A, B, f2[c], g2[c]); }
      for (int c1 = 0; c1 < 2; c1++) for (int c2 = 0; c2 < 2; c2++) for (int x = 0; x < np; x++) for (int y = 0; y < np; y++) { const auto &f = c1 ? f2[x] : f0[x]; const auto &g = c2 ? g2[y] : g0[y]; ld s = 0; for (int p = 0; p < N; p++) s += (ld)me.wt[p] * f[p] * g[p]; t[((c1 * 2 + c2) * np + x) * np + y] = s; }
    }
  }
  static q Poff_d(int l, int m, q d) { return Poff(l, m, 1 + d); }
  static q Qoff_fast(int l, int m, q d) { return Qoff(l, m, d, d > 1e-6Q ? 60 : 76); }
  // int Y_i* Y_LM x^k Y_j
  static q ang(int li, int mi, int L, int M, int lj, int mj, int k) {
    if (mi != M + mj || std::abs(M) > L) return 0; const auto &g = ref::gauss((li + L + lj + k) / 2 + 2); q s = 0;
    for (size_t i = 0; i < g.first.size(); i++) { q x = g.first[i]; s += g.second[i] * (k == 2 ? x * x : (q)1) * ref::theta(li, mi, x) * ref::theta(L, M, x) * ref::theta(lj, mj, x); }
    return s / sqrtq(2 * M_PIq);
  }
};
struct JK { Matrix J, K; };
// J_ij = sum_kl P_kl (ij|kl), K_jk = -sum_il P_il (ij|kl), (ij|kl) = int i* j 1/r12 k* l
static JK contract(const TEI &t, const Matrix &P) {
  const auto &a = t.a; int n = a.N(), na = a.nang(); JK o{Matrix::Zero(n, n), Matrix::Zero(n, n)};
  std::vector<ld> J((size_t)n * n, 0), K((size_t)n * n, 0); q R5 = powq((q)a.Rh, 5);
  for (int i = 0; i < na; i++) for (int j = 0; j < na; j++) for (int k = 0; k < na; k++) for (int l = 0; l < na; l++) {
    if (a.m[i] - a.m[j] != a.m[l] - a.m[k]) continue; int M = a.m[i] - a.m[j], am = std::abs(M);
    bool pj = !P.block(a.off[k], a.off[l], a.nr(k), a.nr(l)).isZero(0), pk = !P.block(a.off[i], a.off[l], a.nr(i), a.nr(l)).isZero(0); if (!pj && !pk) continue;
    for (int L = am; L <= std::min(a.l[i] + a.l[j], a.l[k] + a.l[l]) + 2; L++) {
      // Y_LM on the bra, Y_LM^* on the ket: int k* Y_LM^* l = int l* Y_LM k
      ld b[2] = {(ld)TEI::ang(a.l[i], a.m[i], L, M, a.l[j], a.m[j], 0), -(ld)TEI::ang(a.l[i], a.m[i], L, M, a.l[j], a.m[j], 2)}, c[2] = {(ld)TEI::ang(a.l[l], a.m[l], L, M, a.l[k], a.m[k], 0), -(ld)TEI::ang(a.l[l], a.m[l], L, M, a.l[k], a.m[k], 2)};
      if (std::max(fabsl(b[0]), fabsl(b[1])) < 1e-25L || std::max(fabsl(c[0]), fabsl(c[1])) < 1e-25L) continue;
      q f = 4 * M_PIq * R5 * (am % 2 ? -1 : 1); for (int s = L - am + 1; s <= L + am; s++) f /= s;
      int i0 = a.m[i] != 0, j0 = a.m[j] != 0, k0 = a.m[k] != 0, l0 = a.m[l] != 0;
      for (int x = i0; x < t.nr; x++) for (int y = j0; y < t.nr; y++) for (int z = k0; z < t.nr; z++) for (int w = l0; w < t.nr; w++) {
        ld v = 0; for (int c1 = 0; c1 < 2; c1++) for (int c2 = 0; c2 < 2; c2++) v += b[c1] * c[c2] * t.radial(L, am, c1, c2, x, y, z, w);
        v *= (ld)f; int I = a.off[i] + x - i0, Jx = a.off[j] + y - j0, Kx = a.off[k] + z - k0, Lx = a.off[l] + w - l0;
        J[(size_t)I * n + Jx] += v * P(Kx, Lx); K[(size_t)Jx * n + Kx] -= v * P(I, Lx);
      }
    }
  }
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { o.J(i, j) = (double)J[(size_t)i * n + j]; o.K(i, j) = (double)K[(size_t)i * n + j]; }
  return o;
}
static Matrix sym_random(vf::Rng &g, int n) { Matrix P(n, n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) P(i, j) = P(j, i) = g.uniform(-1, 1); return P; }
static Matrix density(vf::Rng &g, const vfd::DB &a, int kind) {
  int n = a.N(); Matrix P = Matrix::Zero(n, n);
  if (kind == 0) P = sym_random(g, n);                                             // symmetric, couples everything
  if (kind == 1) { Matrix C(n, 1); for (int i = 0; i < n; i++) C(i) = g.uniform(-1, 1); P = C * C.transpose(); }
  if (kind == 2) { P = sym_random(g, n); for (int i = 0; i < a.nang(); i++) for (int j = 0; j < a.nang(); j++) if (a.m[i] != a.m[j]) P.block(a.off[i], a.off[j], a.nr(i), a.nr(j)).setZero(); }
  if (kind == 3) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) P(i, j) = g.uniform(-1, 1);  // not symmetric
  if (kind == 4) P(g.integer(0, n - 1), g.integer(0, n - 1)) = g.uniform(0.5, 2);  // a single element
  if (kind == 5) { int i = g.integer(0, a.nang() - 1), j = g.integer(0, a.nang() - 1); for (int x = 0; x < a.nr(i); x++) for (int y = 0; y < a.nr(j); y++) P(a.off[i] + x, a.off[j] + y) = g.uniform(-1, 1); }
  return P;
}
static double rel(const Matrix &A, const Matrix &B, double s) { return (A - B).cwiseAbs().maxCoeff() / s; }

static bool neumann(vf::Ctx &c, int big = 0) {
  auto &g = c.rng;
  {
    vfd::Opt o; o.legendre = true; o.lmax = g.integer(0, 3); o.maxang = 4; o.maxel = 2; o.maxn = 4; o.muhi = 3; o.fixnq = g.integer(20, 60); o.big = big; if (big) { o.bigel = 5; o.bignn = 9; o.maxang = 2; o.lmax = big == 3 ? 7 : 2; if (big == 2) o.fixnq = 0; } auto a = vfd::make(g, o);
    if (a.R.nbf > (big ? big == 1 ? 14 : 10 : 8)) return false;
    c.m.begin("neumann " + a.desc); TEI t; t.build(a);
    c.m.require("dj.uncomputed_refused", !vf::thrown([&] { a.lib->coulomb(Matrix::Zero(a.N(), a.N())); }).empty() && !vf::thrown([&] { a.lib->exchange(Matrix::Zero(a.N(), a.N())); }).empty());
    a.lib->compute_tei(true);
    double s0 = 0;
    for (int k = 0; k < 3; k++) {
      int kind = k == 0 ? 0 : k == 1 ? g.pick({1, 2, 5}) : g.pick({3, 4, 5}); Matrix P = density(g, a, kind); auto r = contract(t, P); Matrix J = a.lib->coulomb(P), K = a.lib->exchange(P);
      double sj = r.J.cwiseAbs().maxCoeff(), sk = r.K.cwiseAbs().maxCoeff(), s = std::max({sj, sk, 1e-30}); if (k == 0) s0 = s; s = std::max(s, 0.02 * s0);   // factors are truncated relative to the whole kernel
      c.m.small("dj.coulomb", rel(J, r.J, s), 1e-9, vf::fmt("kind=%d", kind)); c.m.small("dj.exchange", rel(K, r.K, s), 1e-9, vf::fmt("kind=%d", kind));
    }
    // the stored low-rank factors reproduce the integrals they stand for
    for (int k = 0; k < 3; k++) { int e = g.integer(0, a.R.nel() - 1); auto it2 = t.T.begin(); std::advance(it2, g.integer(0, (int)t.T.size() - 1)); int L = it2->first.first, M = it2->first.second;
      auto cd = a.lib->check_cd(e, L, M); c.m.small("dj.factor_kernel", cd.first, 1e-9, vf::fmt("el=%d L=%d M=%d", e, L, M)); c.m.small("dj.factor_exchange", cd.second, 1e-7, vf::fmt("el=%d L=%d M=%d", e, L, M));
      Matrix W = a.lib->in_element_kernel(e, L, M), Z = a.lib->in_element_kernel(e, L, -M); int nb = (int)a.R.glo[e].size();
      if (c.m.require("dj.kernel_shape", W.rows() == 2 * nb * nb && W.cols() == W.rows())) c.m.require("dj.kernel_symmetric", (W - W.transpose()).cwiseAbs().maxCoeff() <= 1e-13 * W.cwiseAbs().maxCoeff() && W == Z);
      c.m.event("kernels_checked"); }
  }
  return true;
}
VF_SECTION("neumann") { for (int it = 0; it < c.n(8, 120);) it += neumann(c); }
VF_SECTION("neumann_large") { int s = c.rng.integer(0, 2); for (int it = 0; it < c.n(2, 36);) it += neumann(c, 1 + (it + s) % 3); }

// identities that need no reference tensor, on larger bases
// superposition over many orders of magnitude: a weak component carries its full weight beside a strong one
VF_SECTION("graded") {
  auto &g = c.rng;
  for (int it = 0; it < c.n(24, 200); it++) {
    vfd::Opt o; o.legendre = true; o.lmax = g.integer(1, 3); o.maxang = 6; o.maxel = 3; o.maxn = 5; o.fixnq = g.integer(20, 50); auto a = vfd::make(g, o); auto &L = *a.lib; int n = a.N();
    double big = g.loguniform(1e-2, 1e5), weak = big * std::pow(10.0, -g.uniform(2, 10)); c.m.begin(vf::fmt("graded strong=%.3g weak=%.3g ", big, weak) + a.desc); L.compute_tei(true);
    int A = g.integer(0, a.nang() - 1), B = g.coin(0.7) ? A : g.integer(0, a.nang() - 1); Matrix P = density(g, a, g.pick({0, 1, 2})) * big, Q = Matrix::Zero(n, n);
    for (int x = 0; x < a.nr(A); x++) for (int y = 0; y < a.nr(B); y++) { int I = a.off[A] + x, J = a.off[B] + y; P(I, J) = P(J, I) = 0; Q(I, J) = Q(J, I) = weak * g.uniform(-1, 1); }
    auto superpose = [&](const char *key, std::function<Matrix(const Matrix &)> F) {
      Matrix f0 = F(P), f1 = F(P + Q), fq = F(Q), fu = F(Q / weak); double s0 = f0.cwiseAbs().maxCoeff(), su = fu.cwiseAbs().maxCoeff(), sj = L.coulomb(P).cwiseAbs().maxCoeff();
      c.m.small(std::string("graded.") + key, (f1 - f0 - fq).cwiseAbs().maxCoeff(), 1e-11 * (std::max(s0, sj) + su * std::max(weak, 1.0)), vf::fmt("strong %.3g weak %.3g", s0, fq.cwiseAbs().maxCoeff()));
      c.m.small(std::string("graded_homogeneous.") + key, (fq - weak * fu).cwiseAbs().maxCoeff(), 1e-11 * su * std::max(weak, 1.0));
    };
    superpose("coulomb", [&](const Matrix &D) { return L.coulomb(D); }); superpose("exchange", [&](const Matrix &D) { return L.exchange(D); }); c.m.event("graded_densities");
  }
}
VF_SECTION("identities") {
  auto &g = c.rng;
  for (int it = 0; it < c.n(16, 150); it++) {
    vfd::Opt o; o.legendre = true; o.lmax = g.integer(1, 3); o.sphere = g.coin(0.5); if (o.sphere) o.lmax = g.integer(1, 2); o.maxang = 7; o.maxel = 4; o.maxn = 5; o.fixnq = g.integer(20, 60); auto a = vfd::make(g, o); auto &L = *a.lib; int n = a.N();
    L.compute_tei(true); c.m.begin("identities " + a.desc);
    Matrix P = density(g, a, 0), Q = density(g, a, 2), JP = L.coulomb(P), KP = L.exchange(P), JQ = L.coulomb(Q), KQ = L.exchange(Q); double al = g.uniform(-2, 2), s = JP.cwiseAbs().maxCoeff() + JQ.cwiseAbs().maxCoeff() + 1e-30, sk = KP.cwiseAbs().maxCoeff() + KQ.cwiseAbs().maxCoeff() + 1e-30; s = sk = std::max(s, sk);
    Matrix comb = al * P + Q;
    c.m.small("dj.hermitian", std::max({rel(JP, JP.transpose(), s), rel(KP, KP.transpose(), sk), rel(JQ, JQ.transpose(), s), rel(KQ, KQ.transpose(), sk)}), 1e-10);
    c.m.small("dj.linear", std::max(rel(L.coulomb(comb), al * JP + JQ, s), rel(L.exchange(comb), al * KP + KQ, sk)), 1e-11);
    c.m.small("dj.selfadjoint", std::abs((JP * Q).trace() - (JQ * P).trace()) / (s * n), 1e-10); c.m.small("dj.exchange_selfadjoint", std::abs((KP * Q).trace() - (KQ * P).trace()) / (sk * n), 1e-10);
    Matrix C(n, 1); for (int i = 0; i < n; i++) C(i) = g.uniform(-1, 1); Matrix D = C * C.transpose(), JD = L.coulomb(D), KD = L.exchange(D); double ej = (JD * D).trace(), ek = (KD * D).trace();
    c.m.close("dj.one_orbital", -ek, ej, 1e-9 * std::abs(ej)); c.m.require("dj.coulomb_positive", ej > 0);
    // exchange energies bound: 0 <= -tr(K P) <= tr(J P) for positive P
    Matrix C3(n, 3); for (int i = 0; i < n; i++) for (int k = 0; k < 3; k++) C3(i, k) = g.uniform(-1, 1); Matrix D3 = C3 * C3.transpose(); double e3 = (L.coulomb(D3) * D3).trace(), k3 = -(L.exchange(D3) * D3).trace(); c.m.require("dj.exchange_bounded", k3 > -1e-9 * e3 && k3 <= e3 * (1 + 1e-9), vf::fmt("J=%g K=%g", e3, k3));
    c.m.require("dj.repeatable", L.coulomb(P) == JP && L.exchange(P) == KP);
    // m-conserving densities give m-conserving matrices
    bool blk = true; for (int i = 0; i < a.nang(); i++) for (int j = 0; j < a.nang(); j++) if (a.m[i] != a.m[j] && a.nr(i) && a.nr(j)) blk = blk && JQ.block(a.off[i], a.off[j], a.nr(i), a.nr(j)).isZero(0) && KQ.block(a.off[i], a.off[j], a.nr(i), a.nr(j)).isZero(0); c.m.require("dj.m_conserved", blk);
    // the +-m shortcut: same matrix as the full evaluation whenever the density has the declared symmetry
    if (o.sphere) {
      Matrix A = Matrix::Zero(n, n); auto find = [&](int l, int m) { for (int i = 0; i < a.nang(); i++) if (a.l[i] == l && a.m[i] == m) return i; return -1; };
      for (int i = 0; i < a.nang(); i++) for (int j = 0; j < a.nang(); j++) if (a.m[i] == a.m[j] && a.m[i] >= 0) { Matrix B(a.nr(i), a.nr(j)); for (int x = 0; x < B.rows(); x++) for (int y = 0; y < B.cols(); y++) B(x, y) = g.uniform(-1, 1); A.block(a.off[i], a.off[j], a.nr(i), a.nr(j)) += B; A.block(a.off[j], a.off[i], a.nr(j), a.nr(i)) += B.transpose(); }
      for (int i = 0; i < a.nang(); i++) for (int j = 0; j < a.nang(); j++) if (a.m[i] == a.m[j] && a.m[i] < 0) { int x = find(a.l[i], -a.m[i]), y = find(a.l[j], -a.m[j]); A.block(a.off[i], a.off[j], a.nr(i), a.nr(j)) = A.block(a.off[x], a.off[y], a.nr(x), a.nr(y)); }
      Matrix K0 = L.exchange(A), J0 = L.coulomb(A); c.m.require("dj.shortcut_default_off", !L.is_absm_symmetric()); L.set_absm_symmetric(true); c.m.require("dj.shortcut_flag", L.is_absm_symmetric()); Matrix K1 = L.exchange(A), J1 = L.coulomb(A); L.set_absm_symmetric(false); Matrix K2 = L.exchange(A);
      double z = K0.cwiseAbs().maxCoeff() + 1e-30; c.m.small("dj.shortcut_exchange", rel(K1, K0, z), 1e-11); c.m.small("dj.shortcut_coulomb", rel(J1, J0, J0.cwiseAbs().maxCoeff() + 1e-30), 1e-11); c.m.require("dj.shortcut_reversible", K2 == K0); c.m.event("shortcut_cases");
    }
    // mirror the molecule: (l+l') parity transform
    { Matrix U = Matrix::Zero(n, n); for (int i = 0; i < a.nang(); i++) for (int x = 0; x < a.nr(i); x++) U(a.off[i] + x, a.off[i] + x) = a.l[i] % 2 ? -1 : 1; c.m.small("dj.parity", std::max(rel(L.coulomb(U * P * U), U * JP * U, s), rel(L.exchange(U * P * U), U * KP * U, sk)), 1e-11); }
    { vfd::DB f = a; for (int &v : f.m) v = -v; f = vfd::finish(f, true); f.lib->compute_tei(true); c.m.small("dj.m_reversal", std::max(rel(f.lib->coulomb(P), JP, s), rel(f.lib->exchange(P), KP, sk)), 1e-10); }
    // a permuted angular list is the same basis
    { vfd::DB f = a; std::vector<int> pm; for (int i = 0; i < a.nang(); i++) pm.push_back(i); for (size_t i = pm.size(); i > 1; i--) std::swap(pm[i - 1], pm[g.integer(0, (int)i - 1)]); for (int i = 0; i < a.nang(); i++) { f.l[i] = a.l[pm[i]]; f.m[i] = a.m[pm[i]]; } f = vfd::finish(f, true); f.lib->compute_tei(g.coin());
      Matrix U = Matrix::Zero(n, n); for (int i = 0; i < f.nang(); i++) for (int x = 0; x < f.nr(i); x++) U(f.off[i] + x, a.off[pm[i]] + x) = 1;
      c.m.small("dj.permutation", std::max(rel(f.lib->coulomb(U * P * U.transpose()), U * JP * U.transpose(), s), rel(f.lib->exchange(U * P * U.transpose()), U * KP * U.transpose(), sk)), 1e-11); }
    // the repulsion does not know the nuclei; it scales as 1/length
    { vfd::DB f = a; f.Z1 = 0; f.Z2 = 3; double k = g.pick({2.0, 0.5, 4.0}); f.Rh *= k; f = vfd::finish(f, true); f.lib->compute_tei(true); double k5 = std::pow(k, 5); c.m.small("dj.scaling", std::max(rel(f.lib->coulomb(P), k5 * JP, s * k5), rel(f.lib->exchange(P), k5 * KP, sk * k5)), 1e-12); }
    c.m.require("dj.wrong_size_refused", !vf::thrown([&] { L.coulomb(Matrix::Zero(n + 1, n + 1)); }).empty() && !vf::thrown([&] { L.exchange(Matrix::Zero(n + 1, n)); }).empty());
  }
}
// splitting an element does not change the repulsion between functions both bases contain; classical limits
VF_SECTION("physical") {
  auto &g = c.rng;
  for (int it = 0; it < c.n(6, 40); it++) {
    // a normalised 1s function at the left nucleus expanded in the basis: self-repulsion 5 Z/8
    double Rh = g.uniform(0.4, 1.2), z = g.uniform(1.0, 2.5); vfd::DB a; a.id = 4; a.nn = 10; a.nq = 50; a.Z1 = a.Z2 = 1; a.Rh = Rh; int ne = 3; double mm = std::acosh(32 / z / Rh); for (int i = 0; i <= ne; i++) a.b.push_back(mm * i / ne); for (int l = 0; l <= 10; l++) { a.l.push_back(l); a.m.push_back(0); }
    a = vfd::finish(a, true); auto &L = *a.lib; L.compute_tei(true); c.m.begin(vf::fmt("1s-1s repulsion zeta=%.10g ", z) + a.desc);
    Matrix S = L.overlap(); Vector pL, pR; bool left = true;
    auto project = [&](bool lf) { Vector v = Vector::Zero(a.N()); const auto &gx = ref::gauss(60); for (int e = 0; e < a.R.nel(); e++) { const auto &gm = ref::gauss(24); for (size_t i = 0; i < gm.first.size(); i++) { q mu = a.R.mid(e) + a.R.half(e) * gm.first[i]; auto b = a.R.eval(e, gm.first[i], 0); q s = sinhq(mu), ch = coshq(mu); for (size_t k = 0; k < gx.first.size(); k++) { q x = gx.first[k], r = Rh * (ch + (lf ? x : -x)), w = gm.second[i] * a.R.half(e) * gx.second[k] * Rh * Rh * Rh * s * (ch * ch - x * x) * 2 * M_PIq * sqrtq((q)z * z * z / M_PIq) * expq(-(q)z * r); for (int la = 0; la < a.nang(); la++) { q t = ref::theta(a.l[la], 0, x) / sqrtq(2 * M_PIq); for (size_t j = 0; j < b.size(); j++) v(a.off[la] + a.R.glo[e][j]) += (double)(w * t * b[j]); } } } } return Vector(S.ldlt().solve(v)); };
    (void)left; pL = project(true); pR = project(false);
    c.m.close("dj.expansion_norm", pL.dot(S * pL), 1, 1e-6);
    Matrix PL = pL * pL.transpose(), PR = pR * pR.transpose(), JL = L.coulomb(PL), KL = L.exchange(PL); double R = 2 * Rh, zr = z * R;
    c.m.close("dj.1s_self", (JL * PL).trace(), 5 * z / 8, 1e-5 * z); c.m.close("dj.1s_self_exchange", -(KL * PL).trace(), 5 * z / 8, 1e-5 * z);
    c.m.close("dj.1s_two_centre", (JL * PR).trace(), (1 - (1 + 11 * zr / 8 + 3 * zr * zr / 4 + zr * zr * zr / 6) * std::exp(-2 * zr)) / R, 1e-5 * z);
  }
}
VF_MAIN
