// P11: atomic Coulomb, exchange and range-separated exchange matrices
#include "refatom.h"
#include <CoulombExchangeFE.h>
#include <Eigen/Eigenvalues>
using namespace helfem;
using ref::q;
using atomic::basis::TwoDBasisT;

// random symmetric density; kind 0 general symmetric, 1 low rank (orbitals), 2 m-conserving, 3 single block, 4 wide dynamic range
template <class T> Mat<T> density(vf::Rng &g, const vfa::AB<T> &a, int kind) {
  int n = a.N(), nr = a.R.nbf; Mat<T> P(n, n);
  for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { double v = g.gauss(); int A = i / nr, B = j / nr;
    if (kind == 2 && a.m[A] != a.m[B]) v = 0;
    if (kind == 3 && (A != 0 || B != 0)) v = 0;
    if (kind == 4) v *= std::pow(10.0, -((A + 2 * B) % 7));
    P(i, j) = P(j, i) = (T)v; }
  if (kind == 1) { int k = g.integer(1, 3); Mat<T> C(n, k); for (int i = 0; i < C.size(); i++) C.data()[i] = (T)g.gauss(); P = C * C.transpose(); }
  return P;
}
struct RefJK { std::vector<Ref2e> t; };
template <class T> qm block(const qm &P, const vfa::AB<T> &a, int i, int j) { int n = a.R.nbf; qm o(n, std::vector<q>(n)); for (int x = 0; x < n; x++) for (int y = 0; y < n; y++) o[x][y] = P[i * n + x][j * n + y]; return o; }
// (ij|kl) = sum_LM fac(L) <i|Y_LM|j><l|Y_LM|k> R^L
template <class T> void ref_jk(const vfa::AB<T> &a, const std::vector<Ref2e> &t, const qm &P, std::function<q(int)> fac, qm *J, qm *K) {
  int n = a.nang(), NL = (int)t.size();
  auto cpl = [&](int L, int i, int j, int k, int l) { int M = a.m[i] - a.m[j]; if (M != a.m[l] - a.m[k]) return (q)0; return fac(L) * ref::gaunt(a.l[i], a.m[i], L, M, a.l[j], a.m[j]) * ref::gaunt(a.l[l], a.m[l], L, M, a.l[k], a.m[k]); };
  if (J) *J = a.zero(); if (K) *K = a.zero(); qm jr, kr;
  for (int L = 0; L < NL; L++) for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) {
    std::vector<std::array<int, 2>> js, ks; std::vector<q> jc, kc;
    // J_ij += c(ij,kl) J^L[P_lk] with l=u, k=v ; K_il += c(ij,kl) K^L[P_jk] with j=u, k=v
    if (J) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { q c = cpl(L, i, j, v, u); if (c != 0) { js.push_back({i, j}); jc.push_back(c); } }
    if (K) for (int i = 0; i < n; i++) for (int l = 0; l < n; l++) { q c = cpl(L, i, u, v, l); if (c != 0) { ks.push_back({i, l}); kc.push_back(c); } }
    if (js.empty() && ks.empty()) continue;
    jk(a.R, t[L], block(P, a, u, v), jr, kr);
    for (size_t x = 0; x < js.size(); x++) a.put(*J, js[x][0], js[x][1], jr, jc[x]);
    for (size_t x = 0; x < ks.size(); x++) a.put(*K, ks[x][0], ks[x][1], kr, kc[x]);
  }
}
static qm neg(qm M) { for (auto &r : M) for (auto &v : r) v = -v; return M; }
template <class T> int lmax(const vfa::AB<T> &a) { int l = 0; for (int x : a.l) l = std::max(l, x); return l; }

template <class T> void contraction(vf::Ctx &c, int big = 0) {
  auto &g = c.rng; vfa::Opt o; o.maxel = 3; o.maxn = 4; o.lmax = g.integer(0, 3); o.maxang = sizeof(T) > 8 ? 3 : 4; o.rhi = 20;
  o.big = big; if (big) { o.bigel = 16; o.bignn = 11; o.maxang = 2; o.lmax = big == 3 ? 9 : 1; }
  auto a = vfa::make<T>(g, o); int kind = g.integer(0, 4), NL = 2 * lmax(a) + 1;
  c.m.begin(vf::fmt("jk P=%d ", kind) + a.desc); c.m.event(vf::fmt("density_kind_%d", kind));
  Mat<T> P = density<T>(g, a, kind); std::vector<Ref2e> t; for (int L = 0; L < NL; L++) t.push_back(build(a.R, coul(L)));
  qm J, K; ref_jk(a, t, toq<T>(P), [](int L) { return 4 * M_PIq / (2 * L + 1); }, &J, &K);
  auto L = a.lib;
  c.m.require("jk.before_tei_refused", !vf::thrown([&] { L.coulomb(P); }).empty() && !vf::thrown([&] { L.exchange(P); }).empty() && !vf::thrown([&] { L.rs_exchange(P); }).empty() && !vf::thrown([&] { L.radial_df_factors(); }).empty());
  L.compute_tei(g.coin());
  // in-element tensors are kept to an absolute truncation that follows the precision
  q trunc = (q)(1e-12L * (std::numeric_limits<T>::epsilon() / 2.2e-16L)) * 4 * M_PIq * a.N() * (q)P.cwiseAbs().maxCoeff() / (q)std::numeric_limits<T>::epsilon();
  q sj = 0, sk = 0; for (auto &r : J) for (q v : r) sj = std::max(sj, fabsq(v)); for (auto &r : K) for (q v : r) sk = std::max(sk, fabsq(v));
  Mat<T> lJ = L.coulomb(P), lK = L.exchange(P);
  cmp_matrix<T>(c.m, "jk.coulomb", lJ, J, 5000 + (long double)(sj > 0 ? trunc / sj : (q)0), (q)P.cwiseAbs().maxCoeff() * 1e-3Q);
  cmp_matrix<T>(c.m, "jk.exchange", lK, neg(K), 5000 + (long double)(sk > 0 ? trunc / sk : (q)0), (q)P.cwiseAbs().maxCoeff() * 1e-3Q);
}
VF_SECTION("contraction_double") { for (int i = 0; i < c.n(30, 300); i++) contraction<double>(c); }
// sizes of production runs: many elements, high-order elements, high angular momentum
VF_SECTION("contraction_large") { for (int i = 0; i < c.n(6, 60); i++) contraction<double>(c, 1 + i % 3); for (int i = 0; i < c.n(1, 9); i++) contraction<long double>(c, 1 + (i + (int)c.rng.integer(0, 2)) % 3); }
VF_SECTION("contraction_double2") { for (int i = 0; i < c.n(30, 300); i++) contraction<double>(c); }
VF_SECTION_WIDE("contraction_long") { for (int i = 0; i < c.n(12, 100); i++) contraction<long double>(c); }
VF_SECTION_WIDE("contraction_quad") { for (int i = 0; i < c.n(6, 50); i++) contraction<_Float128>(c); }

// range separation: Yukawa and complementary error function kernels
template <class T> void yukawa(vf::Ctx &c) {
  auto &g = c.rng; vfa::Opt o; o.maxel = 3; o.maxn = 4; o.lmax = g.integer(0, 2); o.maxang = 3; o.rlo = 1; o.rhi = 12;
  auto a = vfa::make<T>(g, o); double lam = g.loguniform(0.1, 2); int NL = 2 * lmax(a) + 1, kind = g.integer(0, 4);
  c.m.begin(vf::fmt("yukawa lambda=%.17g P=%d ", lam, kind) + a.desc);
  Mat<T> P = density<T>(g, a, kind); std::vector<Ref2e> t; for (int L = 0; L < NL; L++) t.push_back(build(a.R, yuk(L, (q)(T)lam)));
  qm K; ref_jk(a, t, toq<T>(P), [&](int) { return 4 * M_PIq * (q)(T)lam; }, (qm *)0, &K);
  auto L = a.lib; int order = g.integer(0, 2);
  if (order == 1) L.compute_erfc((T)0.3); if (order == 2) { L.compute_tei(true); L.compute_yukawa((T)(lam * 2)); }   // an earlier setting must not leak
  L.compute_yukawa((T)lam);
  q sk = 0; for (auto &r : K) for (q v : r) sk = std::max(sk, fabsq(v));
  q trunc = (q)(1e-12L * (std::numeric_limits<T>::epsilon() / 2.2e-16L)) * 4 * M_PIq * (q)lam * a.N() * (q)P.cwiseAbs().maxCoeff() / (q)std::numeric_limits<T>::epsilon();
  cmp_matrix<T>(c.m, "jk.yukawa", L.rs_exchange(P), neg(K), 50000 + (long double)(sk > 0 ? trunc / sk : (q)0), (q)P.cwiseAbs().maxCoeff() * 1e-3Q, 0, vf::fmt("order=%d", order));
}
VF_SECTION("yukawa") { for (int i = 0; i < c.n(20, 200); i++) yukawa<double>(c); for (int i = 0; i < c.n(6, 40); i++) yukawa<long double>(c); for (int i = 0; i < c.n(3, 20); i++) yukawa<_Float128>(c); }
// erfc: the radial tensor is judged on its own; here the angular contraction over it
template <class T> void erfck(vf::Ctx &c) {
  auto &g = c.rng; vfa::Opt o; o.maxel = 2; o.maxn = 4; o.lmax = g.integer(0, 2); o.maxang = 3; o.rlo = 1; o.rhi = 8; o.fixnq = g.integer(10, 14);
  auto a = vfa::make<T>(g, o); double mu = g.loguniform(0.1, 1.5); int NL = 2 * lmax(a) + 1, kind = g.integer(0, 4), n = a.nang(), nr = a.R.nbf;
  c.m.begin(vf::fmt("erfc mu=%.17g P=%d ", mu, kind) + a.desc);
  Mat<T> P = density<T>(g, a, kind); auto L = a.lib; if (g.coin()) L.compute_yukawa((T)0.7); L.compute_erfc((T)mu);
  // independent dense radial tensor R^L(ab|cd) from the published element integrals
  auto poly = make_poly<T>(a.id, a.nn);
  polynomial_basis::FiniteElementBasisT<T> fe(poly, to_vec<T>(a.b), true, false, true, a.zd); atomic::basis::FEMRadialBasisT<T> rad(fe, a.nq);
  Mat<T> K = Mat<T>::Zero(a.N(), a.N());
  for (int LL = 0; LL < NL; LL++) for (int e = 0; e < a.R.nel(); e++) for (int f = 0; f < a.R.nel(); f++) {
    Mat<T> t = rad.erfc_integral(LL, (T)mu, e, f); auto &A = a.R.glo[e], &B = a.R.glo[f]; int na = A.size(), nb = B.size();
    for (int i = 0; i < n; i++) for (int l = 0; l < n; l++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) {
      int M = a.m[i] - a.m[j]; if (M != a.m[l] - a.m[k]) continue;
      q cc = 4 * M_PIq * (q)mu / (2 * LL + 1) * ref::gaunt(a.l[i], a.m[i], LL, M, a.l[j], a.m[j]) * ref::gaunt(a.l[l], a.m[l], LL, M, a.l[k], a.m[k]); if (cc == 0) continue; T ct = (T)cc;
      for (int x = 0; x < na; x++) for (int y = 0; y < na; y++) for (int z = 0; z < nb; z++) for (int w = 0; w < nb; w++) K(i * nr + A[x], l * nr + B[w]) -= ct * t(y * na + x, w * nb + z) * P(j * nr + A[y], k * nr + B[z]);
    }
  }
  qm R = toq<T>(K); cmp_matrix<T>(c.m, "jk.erfc", L.rs_exchange(P), R, 20000, (q)P.cwiseAbs().maxCoeff() * 1e-3Q);
}
VF_SECTION("erfc") { for (int i = 0; i < c.n(14, 120); i++) erfck<double>(c); }

// identities on larger bases where a dense reference would be too expensive
template <class T> void identities(vf::Ctx &c) {
  auto &g = c.rng; vfa::Opt o; o.maxel = 4; o.maxn = 6; o.lmax = g.integer(1, 4); o.maxang = 10; o.sphere = g.coin(0.4); if (o.sphere) o.lmax = g.integer(1, 2); o.rhi = 20;
  auto a = vfa::make<T>(g, o); auto L = a.lib; int n = a.N(), nr = a.R.nbf; long double ep = std::numeric_limits<T>::epsilon();
  c.m.begin("identities " + a.desc); L.compute_tei(true); if (g.coin(0.3)) L.compute_tei(true);
  int rs = g.integer(0, 2); T lam = (T)g.loguniform(0.2, 1); if (rs == 1) L.compute_yukawa(lam);
  auto J = [&](const Mat<T> &P) { return L.coulomb(P); }; auto K = [&](const Mat<T> &P) { return Mat<T>(-L.exchange(P)); };
  Mat<T> P = density<T>(g, a, g.integer(0, 4)), Q = density<T>(g, a, g.integer(0, 2)), JP = J(P), JQ = J(Q), KP = K(P), KQ = K(Q);
  auto tr = [](const Mat<T> &A, const Mat<T> &B) { return A.cwiseProduct(B).sum(); }; auto mag = [](const Mat<T> &A, const Mat<T> &B) { return A.cwiseAbs().cwiseProduct(B.cwiseAbs()).sum(); };
  c.m.small("id.J_symmetric", (long double)((JP - JP.transpose()).cwiseAbs().maxCoeff() / JP.cwiseAbs().maxCoeff()), 1000 * ep); c.m.small("id.K_symmetric", (long double)((KP - KP.transpose()).cwiseAbs().maxCoeff() / KP.cwiseAbs().maxCoeff()), 1000 * ep);
  c.m.small("id.J_reciprocity", (long double)((tr(JP, Q) - tr(JQ, P)) / (mag(JP, Q) + mag(JQ, P))), 1000 * ep); c.m.small("id.K_reciprocity", (long double)((tr(KP, Q) - tr(KQ, P)) / (mag(KP, Q) + mag(KQ, P))), 1000 * ep);
  T al = (T)g.uniform(-2, 2); Mat<T> R = P + al * Q;
  c.m.small("id.J_linear", (long double)((J(R) - JP - al * JQ).cwiseAbs().maxCoeff() / (JP.cwiseAbs().maxCoeff() + JQ.cwiseAbs().maxCoeff())), 1000 * ep); c.m.small("id.K_linear", (long double)((K(R) - KP - al * KQ).cwiseAbs().maxCoeff() / (KP.cwiseAbs().maxCoeff() + KQ.cwiseAbs().maxCoeff())), 1000 * ep);
  // one occupied orbital of pure m: self-interaction cancels exactly; energies are positive
  Vec<T> v(n); int m0 = a.m[g.integer(0, a.nang() - 1)]; for (int i = 0; i < n; i++) v(i) = a.m[i / nr] == m0 ? (T)g.gauss() : T(0);
  Mat<T> D = v * v.transpose(), JD = J(D), KD = K(D); T ej = tr(JD, D), ek = tr(KD, D);
  c.m.small("id.one_orbital", (long double)((ej - ek) / mag(JD, D)), 2000 * ep); c.m.require("id.energy_positive", ej > 0);
  // K <= J for any pair (Schwarz) : tr(K[D1] D2) <= tr(J[D1] D2), both nonnegative
  Vec<T> w(n); for (int i = 0; i < n; i++) w(i) = (T)g.gauss(); Mat<T> D2 = w * w.transpose(); T e12 = tr(JD, D2), x12 = tr(KD, D2); T tol = (T)(1000 * ep) * mag(JD, D2);
  c.m.require("id.exchange_bounded", x12 >= -tol && x12 <= e12 + tol, vf::fmt("J=%g K=%g", (double)e12, (double)x12));
  if (rs == 1) { Mat<T> Y = -L.rs_exchange(D), Y0 = -L.rs_exchange(P), YQ = -L.rs_exchange(Q); T ey = tr(Y, D); c.m.require("id.yukawa_bounded", ey >= -(T)(1e-7) * ek && ey <= ek * (1 + (T)1e-9), vf::fmt("%g %g", (double)ey, (double)ek));
    c.m.small("id.yukawa_reciprocity", (long double)((tr(Y0, Q) - tr(YQ, P)) / (mag(Y0, Q) + mag(YQ, P))), 20000 * ep); }
  if (o.sphere) {
    // rotating the density rotates J and K: full (l,m) shells; use the mirror m -> -m (phase (-1)^m) and the ladder (infinitesimal rotation)
    int nl = a.nang(); Mat<T> U = Mat<T>::Zero(n, n); auto find = [&](int l, int m) { for (int k = 0; k < nl; k++) if (a.l[k] == l && a.m[k] == m) return k; return -1; };
    for (int k = 0; k < nl; k++) { int p = find(a.l[k], -a.m[k]); for (int x = 0; x < nr; x++) U(p * nr + x, k * nr + x) = (a.m[k] & 1) ? T(-1) : T(1); }
    Mat<T> Pm = U * P * U.transpose();
    c.m.small("id.J_mirror", (long double)((J(Pm) - U * JP * U.transpose()).cwiseAbs().maxCoeff() / JP.cwiseAbs().maxCoeff()), 1000 * ep); c.m.small("id.K_mirror", (long double)((K(Pm) - U * KP * U.transpose()).cwiseAbs().maxCoeff() / KP.cwiseAbs().maxCoeff()), 1000 * ep);
    // rotation about y: d^l real matrices by exponentiating the real antisymmetric (L+ - L-)/2
    T be = (T)g.uniform(-3, 3); Mat<T> A = Mat<T>::Zero(nl, nl);
    for (int k = 0; k < nl; k++) { int l = a.l[k], m = a.m[k], up = find(l, m + 1); if (up >= 0) { T s = std::sqrt((T)((l - m) * (l + m + 1))) / 2; A(up, k) += s; A(k, up) -= s; } }
    Mat<T> E = Mat<T>::Identity(nl, nl), term = E; Mat<T> sA = A * (-be / T(64)); for (int k = 1; k < 40; k++) { term = (term * sA / T(k)).eval(); E += term; } for (int k = 0; k < 6; k++) E = (E * E).eval();
    Mat<T> W = Mat<T>::Zero(n, n); for (int i = 0; i < nl; i++) for (int j = 0; j < nl; j++) for (int x = 0; x < nr; x++) W(i * nr + x, j * nr + x) = E(i, j);
    Mat<T> Pr = W * P * W.transpose();
    c.m.small("id.J_rotation", (long double)((J(Pr) - W * JP * W.transpose()).cwiseAbs().maxCoeff() / JP.cwiseAbs().maxCoeff()), 20000 * ep); c.m.small("id.K_rotation", (long double)((K(Pr) - W * KP * W.transpose()).cwiseAbs().maxCoeff() / KP.cwiseAbs().maxCoeff()), 20000 * ep);
    c.m.event("rotations");
  }
}
// superposition over many orders of magnitude: a weak component carries its full weight beside a strong one
template <class T> void graded(vf::Ctx &c) {
  auto &g = c.rng; vfa::Opt o; o.maxel = 3; o.maxn = 5; o.lmax = g.integer(1, 3); o.maxang = 6; o.rhi = 15;
  auto a = vfa::make<T>(g, o); auto L = a.lib; int n = a.N(), nr = a.R.nbf, na = a.nang(); long double ep = std::numeric_limits<T>::epsilon();
  double big = g.loguniform(1e-3, 1e5), weak = big * std::pow(10.0, -g.uniform(2, std::min(14.0, -std::log10((double)ep) - 2)));
  c.m.begin(vf::fmt("graded strong=%.3g weak=%.3g ", big, weak) + a.desc); L.compute_tei(true); bool rs = g.coin(0.5); if (rs) L.compute_yukawa((T)g.loguniform(0.2, 1));
  int A = g.integer(0, na - 1), B = g.coin(0.7) ? A : g.integer(0, na - 1); Mat<T> P = density<T>(g, a, g.pick({0, 1, 2})) * (T)big, Q = Mat<T>::Zero(n, n);
  for (int x = 0; x < nr; x++) for (int y = 0; y < nr; y++) { P(A * nr + x, B * nr + y) = P(B * nr + y, A * nr + x) = T(0); T v = (T)(weak * g.gauss()); Q(A * nr + x, B * nr + y) = Q(B * nr + y, A * nr + x) = v; }
  auto superpose = [&](const char *key, std::function<Mat<T>(const Mat<T> &)> F) {
    Mat<T> f0 = F(P), f1 = F(Mat<T>(P + Q)), fq = F(Q), fu = F(Mat<T>(Q / (T)weak)); long double s0 = (long double)f0.cwiseAbs().maxCoeff(), su = (long double)fu.cwiseAbs().maxCoeff();
    c.m.small(std::string("graded.") + key, (long double)(f1 - f0 - fq).cwiseAbs().maxCoeff(), 1000 * ep * (s0 + su * std::max(weak, 1.0)), vf::fmt("strong %.3Lg weak %.3Lg", s0, (long double)fq.cwiseAbs().maxCoeff()));
    c.m.small(std::string("graded_homogeneous.") + key, (long double)(fq - (T)weak * fu).cwiseAbs().maxCoeff(), 1000 * ep * su * std::max(weak, 1.0));
  };
  superpose("coulomb", [&](const Mat<T> &D) { return L.coulomb(D); }); superpose("exchange", [&](const Mat<T> &D) { return L.exchange(D); }); if (rs) superpose("yukawa", [&](const Mat<T> &D) { return L.rs_exchange(D); });
  c.m.event("graded_densities");
}
VF_SECTION("graded") { for (int i = 0; i < c.n(40, 300); i++) graded<double>(c); for (int i = 0; i < c.n(8, 60); i++) graded<long double>(c); }
VF_SECTION("identities") { for (int i = 0; i < c.n(24, 200); i++) identities<double>(c); for (int i = 0; i < c.n(4, 40); i++) identities<long double>(c); }

// density-fitting factors rebuild the bare radial tensor
VF_SECTION("df_factors") {
  auto &g = c.rng;
  for (int i = 0; i < c.n(16, 150); i++) {
    vfa::Opt o; o.maxel = 3; o.maxn = 4; o.lmax = g.integer(0, 2); o.maxang = 3; o.rhi = g.pick({20, 45}); auto a = vfa::make<double>(g, o); auto L = a.lib; int NL = 2 * lmax(a) + 1, nr = a.R.nbf; double tol = g.pick({1e-10, 1e-8, 1e-6});
    c.m.begin(vf::fmt("df tol=%g ", tol) + a.desc); L.compute_tei(false);
    auto B = L.radial_df_factors(tol); if (!c.m.require("df.multipoles", (int)B.size() == NL)) continue;
    for (int k = 0; k < NL; k++) {
      Ref2e t = build(a.R, coul(k)); int nsup = 0; for (int e = 0; e < a.R.nel(); e++) nsup += a.R.glo[e].size() * a.R.glo[e].size();
      c.m.require("df.rank_bounded", (int)B[k].size() <= nsup, vf::fmt("%d %d", (int)B[k].size(), nsup)); bool shape = true; for (auto &b : B[k]) shape = shape && b.rows() == nr && b.cols() == nr && (b - b.transpose()).cwiseAbs().maxCoeff() <= 1e-13 / std::sqrt(tol) * (1 + b.cwiseAbs().maxCoeff() * b.cwiseAbs().maxCoeff()); c.m.require("df.symmetric", shape);
      // contract with random densities: J and K built from the factors
      Matrix P = Matrix::Zero(nr, nr); for (int x = 0; x < nr; x++) for (int y = 0; y <= x; y++) P(x, y) = P(y, x) = g.gauss();
      qm J, K; jk(a.R, t, toq<double>(P), J, K); Matrix Jf = Matrix::Zero(nr, nr), Kf = Jf; for (auto &b : B[k]) { Jf += b * b.cwiseProduct(P).sum(); Kf += b * P * b; }
      Matrix dg = Matrix::Zero(nr, nr); for (auto &b : B[k]) dg += b.cwiseProduct(b); double lim = (tol + 4e-16 * dg.maxCoeff()) * nr * nr * P.cwiseAbs().maxCoeff() + 1e-12; cmp_matrix<double>(c.m, "df.J", Jf, J, 1, 1, (q)lim); cmp_matrix<double>(c.m, "df.K", Kf, K, 1, 1, (q)lim);
    }
  }
}
VF_MAIN
