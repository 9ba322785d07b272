// P06: radial two-electron tensors and single-multipole J/K assembly
#include "refrad.h"
#include "ref2e.h"
#include <CoulombExchangeFE.h>
#include <erfc_expn.h>
#include <utils.h>
#include <chebyshev.h>
#include <Eigen/Eigenvalues>
using namespace helfem;
using namespace helfem::atomic::basis;
using vfr::q;

template <class T> struct Tol { static constexpr long double v = 3000; };

template <class T> void tensors(vf::Ctx &c) {
  auto &g = c.rng;
  auto o = vfr::make<T>(g, 3, sizeof(T) == 8 ? 6 : 4, 0.5, 50);
  auto &R = o.R; auto &Lb = o.lib;
  bool y = g.coin(0.35);
  int L = g.coin(0.2) ? g.integer(5, 10) : g.integer(0, 4);
  double lam = g.loguniform(0.05, 3);
  while (lam * o.b.back() > 60) lam /= 2;
  c.m.begin(vf::fmt("tensor L=%d %s lambda=%.6g ", L, y ? "yukawa" : "coulomb", lam) + o.desc);
  c.m.event(y ? "yukawa" : "coulomb");
  Kern k = y ? yuk(L, (q)(T)lam) : coul(L);
  long double tol = Tol<T>::v * (y ? 20 : 1);
  for (int e = 0; e < R.nel(); e++) {
    qm ref_ = in_element(R, e, k, 24);
    Mat<T> t = y ? Lb.yukawa_integral(L, (T)lam, e) : Lb.twoe_integral(L, e);
    cmp_matrix<T>(c.m, y ? "tei.yukawa" : "tei.coulomb", t, ref_, tol, 0, 0, vf::fmt("el=%d", e));
    if (t.rows() != (Eigen::Index)ref_.size()) continue;
    // 8-fold permutation symmetry
    int nb = R.glo[e].size(); T d = 0, sc = t.cwiseAbs().maxCoeff();
    for (int a = 0; a < nb; a++) for (int b = 0; b < nb; b++) for (int cc = 0; cc < nb; cc++) for (int dd = 0; dd < nb; dd++) {
      T v = t(b * nb + a, dd * nb + cc);
      d = std::max({d, (T)std::abs(v - t(a * nb + b, dd * nb + cc)), (T)std::abs(v - t(b * nb + a, cc * nb + dd)), (T)std::abs(v - t(dd * nb + cc, b * nb + a))});
    }
    c.m.small("tei.permutation", (long double)(d / sc), 200 * (long double)std::numeric_limits<T>::epsilon());
    // positive semidefinite kernel
    Eigen::SelfAdjointEigenSolver<Matrix> es(t.template cast<double>());
    c.m.require("tei.positive", es.eigenvalues()(0) > -1e-11 * es.eigenvalues()(es.eigenvalues().size() - 1), vf::fmt("%g %g", es.eigenvalues()(0), es.eigenvalues()(es.eigenvalues().size() - 1)));
    // Cholesky factor reproduces it
    T ct = (T)g.pick({1e-12, 1e-8});
    Mat<T> ch = y ? Lb.yukawa_integral_cholesky(L, (T)lam, e, ct) : Lb.twoe_integral_cholesky(L, e, ct);
    if (c.m.require("chol.shape", ch.rows() == t.rows() && ch.cols() <= ch.rows(), vf::fmt("%dx%d", (int)ch.rows(), (int)ch.cols()))) {
      T err = (ch * ch.transpose() - t).cwiseAbs().maxCoeff();
      c.m.small("chol.residual", (long double)err, 10 * (long double)ct + 1000 * (long double)std::numeric_limits<T>::epsilon() * (long double)sc);
    }
    // exchange permutation
    Mat<T> kt = utils::exchange_tei<T>(t, nb, nb, nb, nb);
    bool ok = kt.rows() == nb * nb && kt.cols() == nb * nb;
    for (int a = 0; a < nb && ok; a++) for (int b = 0; b < nb; b++) for (int cc = 0; cc < nb; cc++) for (int dd = 0; dd < nb; dd++)
      ok = ok && kt(cc * nb + b, dd * nb + a) == t(b * nb + a, dd * nb + cc);
    c.m.require("tei.exchange_permutation", ok);
  }
}
VF_SECTION("tensors_double") { for (int i = 0; i < c.n(60, 600); i++) tensors<double>(c); }
VF_SECTION("tensors_double2") { for (int i = 0; i < c.n(60, 600); i++) tensors<double>(c); }
VF_SECTION("tensors_large") { for (int i = 0; i < c.n(6, 60); i++) { vfr::Big b(1 + i % 2); tensors<double>(c); } }
VF_SECTION_WIDE("tensors_long") { for (int i = 0; i < c.n(24, 200); i++) tensors<long double>(c); }
VF_SECTION_WIDE("tensors_quad") { for (int i = 0; i < c.n(8, 60); i++) tensors<_Float128>(c); }
VF_SECTION("exchange_shapes") {
  auto &g = c.rng;
  for (int i = 0; i < c.n(80, 800); i++) {
    int Ni = g.integer(1, 5), Nj = g.integer(1, 5), Nk = g.integer(1, 5), Nl = g.integer(1, 5);
    c.m.begin(vf::fmt("exchange_tei %d %d %d %d #%d", Ni, Nj, Nk, Nl, i));
    Matrix t(Ni * Nj, Nk * Nl); for (int x = 0; x < t.size(); x++) t.data()[x] = x + 1;
    Matrix k = utils::exchange_tei<double>(t, Ni, Nj, Nk, Nl);
    bool ok = k.rows() == Nj * Nk && k.cols() == Ni * Nl;
    for (int a = 0; a < Ni && ok; a++) for (int b = 0; b < Nj; b++) for (int cc = 0; cc < Nk; cc++) for (int d = 0; d < Nl; d++) ok = ok && k(cc * Nj + b, d * Ni + a) == t(b * Ni + a, d * Nk + cc);
    c.m.require("exchange.general", ok);
    c.m.require("exchange.bad_rows_rejected", !vf::thrown([&] { utils::exchange_tei<double>(t, Ni + 1, Nj, Nk, Nl); }).empty());
    c.m.require("exchange.bad_cols_rejected", !vf::thrown([&] { utils::exchange_tei<double>(t, Ni, Nj, Nk, Nl + 1); }).empty());
  }
}

template <class T> void contraction(vf::Ctx &c) {
  auto &g = c.rng;
  auto o = vfr::make<T>(g, 4, sizeof(T) == 8 ? 5 : 4, 0.5, 40);
  auto &R = o.R; auto &Lb = o.lib;
  bool y = g.coin(0.4);
  int L = g.coin(0.15) ? g.integer(4, 8) : g.integer(0, 3), pk = g.integer(0, 2);
  double lam = g.loguniform(0.05, 2);
  while (lam * o.b.back() > 50) lam /= 2;
  c.m.begin(vf::fmt("contract L=%d %s lambda=%.6g P=%d ", L, y ? "yukawa" : "coulomb", lam, pk) + o.desc);
  Kern k = y ? yuk(L, (q)(T)lam) : coul(L);
  Ref2e t = build(R, k);
  Mat<T> P = rnd<T>(g, R.nbf, pk); qm J, K; jk(R, t, toq<T>(P), J, K);
  long double tol = 5000 * (y ? 10 : 1);
  T la = (T)lam;
  Mat<T> lJ = y ? assemble_J_FE_one_multipole_yukawa(Lb, L, la, P) : assemble_J_FE_one_multipole(Lb, L, P);
  Mat<T> lK = y ? assemble_K_FE_one_multipole_yukawa(Lb, L, la, P) : assemble_K_FE_one_multipole(Lb, L, P);
  cmp_matrix<T>(c.m, "jk.J", lJ, J, tol); cmp_matrix<T>(c.m, "jk.K", lK, K, tol);
  // cached, Cholesky and pairwise paths
  int NL = L + 1; size_t Nel = Lb.Nel();
  std::vector<Mat<T>> ds, db, tei, ktei;
  if (y) { compute_disjoint_radial_integrals(Lb, NL, ds, db, true, la); compute_in_element_tei(Lb, NL, tei, true, la); }
  else { compute_disjoint_radial_integrals(Lb, NL, ds, db); compute_in_element_tei(Lb, NL, tei); }
  compute_in_element_ktei_from_tei(Lb, NL, tei, ktei);
  if (!c.m.require("jk.cache_sizes", ds.size() == NL * Nel && db.size() == NL * Nel && tei.size() == NL * Nel * Nel && ktei.size() == NL * Nel * Nel)) return;
  std::vector<Mat<T>> chol;
  for (size_t e = 0; e < Nel; e++) chol.push_back(y ? Lb.yukawa_integral_cholesky(L, la, e, T(1e-14)) : Lb.twoe_integral_cholesky(L, e, T(1e-14)));
  auto rs = [&](size_t e) -> const Mat<T> & { return ds[L * Nel + e]; };
  auto rb = [&](size_t e) -> const Mat<T> & { return db[L * Nel + e]; };
  auto tw = [&](size_t e) -> const Mat<T> & { return tei[L * Nel * Nel + e * Nel + e]; };
  auto kw = [&](size_t e) -> const Mat<T> & { return ktei[L * Nel * Nel + e * Nel + e]; };
  auto cw = [&](size_t e) -> const Mat<T> & { return chol[e]; };
  cmp_matrix<T>(c.m, "jk.J_cached", assemble_J_FE_one_multipole_cached(Lb, rs, rb, tw, P), J, tol);
  cmp_matrix<T>(c.m, "jk.K_cached", assemble_K_FE_one_multipole_cached(Lb, rs, rb, kw, P), K, tol);
  q floor = (q)1e-13Q * R.nbf / (q)std::numeric_limits<T>::epsilon();   // Cholesky truncation
  T pn = P.cwiseAbs().maxCoeff();
  cmp_matrix<T>(c.m, "jk.J_chol", assemble_J_FE_one_multipole_cached_chol(Lb, rs, rb, cw, P), J, tol + (long double)(floor * (q)pn * 10), 1);
  cmp_matrix<T>(c.m, "jk.K_chol", assemble_K_FE_one_multipole_cached_chol(Lb, rs, rb, cw, P), K, tol + (long double)(floor * (q)pn * 10), 1);
  // dense pairwise accessor built from the same factors must reproduce K
  std::vector<Mat<T>> pw(Nel * Nel);
  for (size_t e = 0; e < Nel; e++) for (size_t f = 0; f < Nel; f++) {
    int na = R.glo[e].size(), nc = R.glo[f].size(); Mat<T> m(na * na, nc * nc);
    for (int a = 0; a < na; a++) for (int b = 0; b < na; b++) for (int cc = 0; cc < nc; cc++) for (int d = 0; d < nc; d++)
      m(b * na + a, d * nc + cc) = (T)(e == f ? t.tei[e][b * na + a][d * na + cc] : e < f ? t.sm[e][a][b] * t.bg[f][cc][d] : t.bg[e][a][b] * t.sm[f][cc][d]);
    pw[e * Nel + f] = utils::exchange_tei<T>(m, na, na, nc, nc);
  }
  cmp_matrix<T>(c.m, "jk.K_pairwise", assemble_K_FE_one_multipole_cached_pairwise(Lb, [&](size_t e, size_t f) -> const Mat<T> & { return pw[e * Nel + f]; }, P), K, tol);
  // identities: tr(J[P] Q) = tr(J[Q] P); one orbital J energy = K energy
  Mat<T> Q = rnd<T>(g, R.nbf, 1);
  auto Jf = [&](const Mat<T> &X) { return assemble_J_FE_one_multipole_cached(Lb, rs, rb, tw, X); };
  auto Kf = [&](const Mat<T> &X) { return assemble_K_FE_one_multipole_cached(Lb, rs, rb, kw, X); };
  Mat<T> JQ = Jf(Q), KQ = Kf(Q);
  Mat<T> Ps = (P + P.transpose()) / T(2), JP = Jf(Ps), KP = Kf(Ps);
  T e1 = (JP * Q).trace(), e2 = (JQ * Ps).trace(), sc = JP.cwiseAbs().cwiseProduct(Q.cwiseAbs()).sum() + JQ.cwiseAbs().cwiseProduct(Ps.cwiseAbs()).sum();
  long double ep = std::numeric_limits<T>::epsilon();
  c.m.small("jk.J_reciprocity", (long double)((e1 - e2) / sc), 500 * ep);
  e1 = (KP * Q).trace(); e2 = (KQ * Ps).trace(); sc = KP.cwiseAbs().cwiseProduct(Q.cwiseAbs()).sum() + KQ.cwiseAbs().cwiseProduct(Ps.cwiseAbs()).sum();
  c.m.small("jk.K_reciprocity", (long double)((e1 - e2) / sc), 500 * ep);
  Vec<T> v(R.nbf); for (int i = 0; i < R.nbf; i++) v(i) = (T)g.gauss();
  Mat<T> D = v * v.transpose(), JD = Jf(D), KD = Kf(D);
  e1 = (JD * D).trace(); e2 = (KD * D).trace(); sc = JD.cwiseAbs().cwiseProduct(D.cwiseAbs()).sum();
  c.m.small("jk.one_orbital", (long double)((e1 - e2) / sc), 1000 * ep);
  c.m.require("jk.energy_positive", e1 > 0);
  T al = (T)g.uniform(-2, 2); Mat<T> JL = Jf(Ps + al * Q), KL = Kf(Ps + al * Q);
  c.m.small("jk.J_linear", (long double)((JL - JP - al * JQ).cwiseAbs().maxCoeff() / (JL.cwiseAbs().maxCoeff() + JP.cwiseAbs().maxCoeff())), 500 * ep);
  c.m.small("jk.K_linear", (long double)((KL - KP - al * KQ).cwiseAbs().maxCoeff() / (KL.cwiseAbs().maxCoeff() + KP.cwiseAbs().maxCoeff())), 500 * ep);
  // caches: every multipole slot holds its own multipole
  int l2 = g.integer(0, L); size_t e0 = g.integer(0, (int)Nel - 1);
  Mat<T> d1 = y ? Lb.bessel_il_integral(l2, la, e0) : Lb.radial_integral(l2, e0);
  c.m.require("jk.cache_slot_small", d1 == ds[l2 * Nel + e0]);
  if (e0) { Mat<T> d2 = y ? Lb.bessel_kl_integral(l2, la, e0) : Lb.radial_integral(-l2 - 1, e0); c.m.require("jk.cache_slot_big", d2 == db[l2 * Nel + e0]); }
  Mat<T> d3 = y ? Lb.yukawa_integral(l2, la, e0) : Lb.twoe_integral(l2, e0);
  c.m.require("jk.cache_slot_tei", d3 == tei[l2 * Nel * Nel + e0 * Nel + e0]);
}
VF_SECTION("contraction_double") { for (int i = 0; i < c.n(40, 400); i++) contraction<double>(c); }
VF_SECTION("contraction_double2") { for (int i = 0; i < c.n(40, 400); i++) contraction<double>(c); }
VF_SECTION("contraction_large") { for (int i = 0; i < c.n(6, 60); i++) { vfr::Big b(1 + i % 2); contraction<double>(c); } }
VF_SECTION_WIDE("contraction_long") { for (int i = 0; i < c.n(12, 120); i++) contraction<long double>(c); }
VF_SECTION_WIDE("contraction_quad") { for (int i = 0; i < c.n(5, 40); i++) contraction<_Float128>(c); }

// range-separated tensor between different elements (no cusp): converges with the rule
VF_SECTION("erfc") {
  auto &g = c.rng;
  for (int i = 0; i < c.n(12, 120); i++) {
    auto o = vfr::make<double>(g, 3, 4, 2, 10);
    auto &R = o.R; if (R.nel() < 2) { i--; continue; }
    int L = g.integer(0, 3); double mu = g.loguniform(0.1, 1.0);
    auto fe = o.lib.get_fem();
    FEMRadialBasisT<double> fine(fe, 60);
    c.m.begin(vf::fmt("erfc L=%d mu=%.6g ", L, mu) + o.desc);
    int e = g.integer(0, R.nel() - 1), f = g.integer(0, R.nel() - 1);
    int na = R.glo[e].size(), nc = R.glo[f].size();
    const int N = std::abs(e - f) == 1 ? 32 : 16; const auto &gq = ref::gauss(N);
    Mat<double> t = fine.erfc_integral(L, mu, e, f), tt = fine.erfc_integral(L, mu, f, e);
    if (!c.m.require("erfc.shape", t.rows() == na * na && t.cols() == nc * nc)) continue;
    double sc = t.cwiseAbs().maxCoeff();
    c.m.small("erfc.transpose", (t - tt.transpose()).cwiseAbs().maxCoeff() / sc, 1e-6);
    // reference by tensor Gauss quadrature (split at the cusp when e==f)
    qm M(na * na, std::vector<q>(nc * nc, 0));
    for (int a = 0; a < N; a++) {
      q r = R.mid(e) + R.half(e) * gq.first[a]; auto u = R.eval(e, gq.first[a], 0);
      std::vector<q> cut{R.b[f]}; if (e == f) cut.push_back(r); cut.push_back(R.b[f + 1]);
      for (size_t s = 0; s + 1 < cut.size(); s++) for (int b = 0; b < N; b++) {
        q rr = (cut[s] + cut[s + 1]) / 2 + (cut[s + 1] - cut[s]) / 2 * gq.first[b]; auto v = R.eval(f, R.xof(f, rr), 0);
        q w = gq.second[a] * R.half(e) * gq.second[b] * (cut[s + 1] - cut[s]) / 2 * phi_ref(L, (q)mu * r, (q)mu * rr);
        for (int x = 0; x < na; x++) for (int y = 0; y < na; y++) { q xy = w * u[x] * u[y]; for (int z = 0; z < nc; z++) for (int zz = 0; zz < nc; zz++) M[y * na + x][zz * nc + z] += xy * v[z] * v[zz]; }
      }
    }
    bool touch = std::abs(e - f) <= 1;
    c.m.event(e == f ? "intra" : touch ? "adjacent" : "disjoint");
    // the library documents algebraic convergence across the cusp
    cmp_matrix<double>(c.m, e == f ? "erfc.intra" : "erfc.inter", t, M, 1, 0, e == f ? (q)1e-3Q : (q)1e-6Q);
  }
}
VF_SECTION("erfc_limits") {
  auto &g = c.rng;
  for (int i = 0; i < c.n(24, 200); i++) {
    auto o = vfr::make<double>(g, 3, 4, 1, 6, 0, 0, false);
    auto &R = o.R; int L = g.integer(0, 2);
    c.m.begin(vf::fmt("erfc-limit L=%d ", L) + o.desc);
    auto fe = o.lib.get_fem(); FEMRadialBasisT<double> fine(fe, 40);
    std::vector<Mat<double>> kt; double mu = 1e-3;
    compute_erfc_ktei(fine, L + 1, mu, kt);
    size_t Nel = R.nel();
    // mu*Phi_L -> r<^L/r>^(L+1) as mu -> 0 for L>=1; for L=0 it differs by a constant O(mu)
    Ref2e t = build(R, coul(L)); Mat<double> P = rnd<double>(g, R.nbf, 1); qm J, K; jk(R, t, toq<double>(P), J, K);
    Mat<double> k = assemble_K_FE_one_multipole_cached_pairwise(fine, [&](size_t e, size_t f) -> const Mat<double> & { return kt[L * Nel * Nel + e * Nel + f]; }, P);
    k *= mu;
    cmp_matrix<double>(c.m, "erfc.coulomb_limit", k, K, 1, 0, L == 0 ? (q)2e-2Q : (q)2e-3Q);
  }
}
template <class T> void sphpot(vf::Ctx &c) {
  auto &g = c.rng;
  auto o = vfr::make<T>(g, 3, 5, 0.5, 20);
  auto &R = o.R;
  auto fe = o.lib.get_fem(); FEMRadialBasisT<T> fine(fe, g.integer(15, 30));
  c.m.begin(vf::fmt("sphpot nq=%d ", fine.get_nquad()) + o.desc);
  Vec<T> xq = fine.get_xq();
  for (int e = 0; e < R.nel(); e++) {
    Mat<T> V = fine.spherical_potential(e); int nb = R.glo[e].size();
    if (!c.m.require("sphpot.shape", V.rows() == xq.size() && V.cols() == nb * nb)) continue;
    qm M(xq.size(), std::vector<q>(nb * nb, 0)); const auto &gq = ref::gauss(30);
    for (int i = 0; i < xq.size(); i++) {
      q r = R.mid(e) + R.half(e) * (q)xq(i);
      for (int s = 0; s < 2; s++) { q lo = s ? r : R.b[e], hi = s ? R.b[e + 1] : r;
        std::vector<q> cut{lo}; if (lo > 0) for (q t = lo * 1.8Q; t < hi; t *= 1.8Q) cut.push_back(t); cut.push_back(hi);
        for (size_t z = 0; z + 1 < cut.size(); z++) for (int k = 0; k < 30; k++) { q rr = (cut[z] + cut[z + 1]) / 2 + (cut[z + 1] - cut[z]) / 2 * gq.first[k]; auto v = R.eval(e, R.xof(e, rr), 0); q w = gq.second[k] * (cut[z + 1] - cut[z]) / 2 * (s ? 1 / rr : 1 / r);
          for (int a = 0; a < nb; a++) for (int b = 0; b < nb; b++) M[i][b * nb + a] += w * v[a] * v[b]; } }
    }
    // fixed Chebyshev rule of the basis: algebraic accuracy only
    cmp_matrix<T>(c.m, "sphpot.value", V, M, 1, 0, (q)1e-5Q, vf::fmt("el=%d", e));
  }
}
VF_SECTION("sphpot") { for (int i = 0; i < c.n(40, 300); i++) sphpot<double>(c); for (int i = 0; i < c.n(8, 60); i++) sphpot<long double>(c); }
VF_MAIN
