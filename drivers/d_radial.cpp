// P05: one-electron radial integrals, cross-basis integrals, evaluation
#include "refrad.h"
#include <GaussianNucleus.h>
#include <HollowNucleus.h>
#include <PointNucleus.h>
#include <SphericalNucleus.h>
#include <Eigen/Eigenvalues>
using namespace helfem;
using vfr::q;
template <class T> using RBT = atomic::basis::FEMRadialBasisT<T>;

template <class T> void symmetric(vf::Mon &m, const char *key, const Mat<T> &M) {
  T d = M.size() ? (M - M.transpose()).cwiseAbs().maxCoeff() : T(0), s = M.size() ? M.cwiseAbs().maxCoeff() : T(1);
  m.small(key, (long double)(d / (s > 0 ? s : T(1))), 50 * (long double)std::numeric_limits<T>::epsilon());
}
static const long double TOL = 500;

template <class T> void onee(vf::Ctx &c) {
  auto &g = c.rng;
  auto o = vfr::make<T>(g, 4, sizeof(T) == 8 ? 9 : 6, 0.5, 60);
  c.m.begin("onee " + o.desc);
  auto &R = o.R; auto &L = o.lib;
  if (!c.m.require("rad.nbf", (int)L.Nbf() == R.nbf && (int)L.Nel() == R.nel())) return;
  int N = 40; auto gb = vfr::geo(R);
  auto B0 = R.B(0), B1 = R.B(1), R0 = R.R(0);
  auto S = R.matrix(B0, B0, nullptr, N), Kn = R.matrix(B1, B1, nullptr, N), Kl = R.matrix(R0, R0, nullptr, N, gb);
  auto Vn = R.matrix(R0, R0, [](q r) { return -r; }, N, gb);
  for (auto &row : Kn) for (auto &v : row) v /= 2;
  for (auto &row : Kl) for (auto &v : row) v /= 2;
  Mat<T> lS = L.overlap(), lK = L.kinetic(), lKl = L.kinetic_l(), lV = L.nuclear();
  cmp_matrix<T>(c.m, "rad.overlap", lS, S, TOL); cmp_matrix<T>(c.m, "rad.kinetic", lK, Kn, TOL);
  cmp_matrix<T>(c.m, "rad.kinetic_l", lKl, Kl, TOL); cmp_matrix<T>(c.m, "rad.nuclear", lV, Vn, TOL);
  symmetric<T>(c.m, "rad.overlap_symmetric", lS); symmetric<T>(c.m, "rad.kinetic_symmetric", lK);
  symmetric<T>(c.m, "rad.kinetic_l_symmetric", lKl); symmetric<T>(c.m, "rad.nuclear_symmetric", lV);
  Matrix nS = lS.template cast<double>(); { Vector d = nS.diagonal().cwiseSqrt().cwiseInverse(); nS = (d.asDiagonal() * nS * d.asDiagonal()).eval(); }   // unit norms: Hermite functions differ by orders of magnitude
  Eigen::SelfAdjointEigenSolver<Matrix> es(nS);
  c.m.require("rad.overlap_positive", es.eigenvalues()(0) > 0, vf::fmt("%g", es.eigenvalues()(0)));
  auto elsum = [&](const char *k, std::function<Mat<T>(size_t)> f, const ref::qmat &ref_) { cmp_matrix<T>(c.m, k, vfr::element_sum<T>(o, f), ref_, TOL); };
  elsum("rad.overlap_el", [&](size_t e) { return L.overlap(e); }, S);
  elsum("rad.kinetic_el", [&](size_t e) { return L.kinetic(e); }, Kn);
  elsum("rad.kinetic_l_el", [&](size_t e) { return L.kinetic_l(e); }, Kl);
  elsum("rad.nuclear_el", [&](size_t e) { return L.nuclear(e); }, Vn);
  // moments
  for (int n = -2; n <= 5; n++) {
    if (!(n == g.integer(-2, 5) || n == -1 || n == 0)) continue;
    auto M = R.matrix(R0, R0, [n](q r) { return powq(r, n + 2); }, N, gb);
    elsum(vf::fmt("rad.moment").c_str(), [&](size_t e) { return L.radial_integral(n, e); }, M);
    // partial element
    int e = g.integer(0, R.nel() - 1);
    T xl = g.coin(0.3) ? T(-1) : (T)g.uniform(-1, 0), xr = g.coin(0.3) ? T(1) : (T)g.uniform(0.05, 1);
    ref::qmat P(R.nbf, std::vector<q>(R.nbf, 0));
    R.element(P, e, R0, R0, [n](q r) { return powq(r, n + 2); }, N, gb, R.mid(e) + R.half(e) * (q)xl, R.mid(e) + R.half(e) * (q)xr);
    size_t a, b; L.get_idx(e, a, b);
    Mat<T> full = Mat<T>::Zero(R.nbf, R.nbf), blk = L.radial_integral(n, e, xl, xr);
    if (c.m.require("rad.partial.shape", blk.rows() == (Eigen::Index)(b - a + 1))) {
      full.block(a, a, b - a + 1, b - a + 1) = blk;
      q sc = 0; for (auto &row : M) for (q v : row) sc = std::max(sc, fabsq(v));
      cmp_matrix<T>(c.m, "rad.partial_moment", full, P, TOL, sc, 0, vf::fmt("n=%d e=%d x=[%g,%g]", n, e, (double)xl, (double)xr));
    }
  }
}
VF_SECTION("onee_double") { for (int i = 0; i < c.n(3 * 24, 200); i++) onee<double>(c); }
VF_SECTION("onee_large") { for (int i = 0; i < c.n(12, 100); i++) { vfr::Big b(1 + i % 2); onee<double>(c); } for (int i = 0; i < c.n(2, 20); i++) { vfr::Big b(1 + i % 2); onee<long double>(c); } }
VF_SECTION_WIDE("onee_long") { for (int i = 0; i < c.n(3 * 10, 80); i++) onee<long double>(c); }
VF_SECTION_WIDE("onee_quad") { for (int i = 0; i < c.n(3 * 4, 30); i++) onee<_Float128>(c); }

template <class T> void generic(vf::Ctx &c) {
  auto &g = c.rng;
  typedef typename RBT<T>::BasisKind BK;
  auto o = vfr::make<T>(g, 3, 6, 0.5, 20);
  auto &R = o.R; auto &L = o.lib;
  int ik = g.integer(0, 5), jk = g.integer(0, 5), wk = g.integer(0, 4);
  double al = g.loguniform(0.1, 2); double kink = g.uniform(0.05, 0.95) * o.b.back();
  c.m.begin(vf::fmt("generic bra=%d ket=%d weight=%d al=%.6g kink=%.6g ", ik, jk, wk, al, kink) + o.desc);
  std::function<T(T)> f; std::function<q(q)> fq; std::vector<T> bp; std::vector<q> brk = vfr::geo(R); int deg = -1;
  switch (wk) {
    case 0: deg = 0; break;
    case 1: f = [al](T r) { return std::exp(-(T)al * r); }; fq = [al](q r) { return expq(-(q)al * r); }; break;
    case 2: f = [al](T r) { return T(1) / (T(1) + (T)al * r * r); }; fq = [al](q r) { return 1 / (1 + (q)al * r * r); }; break;
    case 3: f = [](T r) { return r * r; }; fq = [](q r) { return r * r; }; deg = g.coin() ? 2 : -1; break;
    case 4: f = [kink](T r) { return r < (T)kink ? (T)kink - r : (r - (T)kink) * T(2); }; fq = [kink](q r) { return r < (q)kink ? (q)kink - r : (r - (q)kink) * 2; }; bp.push_back((T)kink); brk.push_back(kink); break;
  }
  // 1/(1+al r^2) has poles at +-i/sqrt(al): subdivide
  if (wk == 2) for (int e = 0; e < R.nel(); e++) for (int k = 1; k < 24; k++) brk.push_back(R.b[e] + (R.b[e + 1] - R.b[e]) * k / 24);
  if (wk == 2 && o.b.back() * std::sqrt(al) > 15) al = 0;   // (kept constant; weight uses captured al)
  BK kinds[] = {BK::B0, BK::B1, BK::B2, BK::R0, BK::R1, BK::R2};
  auto lh = ik < 3 ? R.B(ik) : R.R(ik - 3), rh = jk < 3 ? R.B(jk) : R.R(jk - 3);
  auto M = R.matrix(lh, rh, fq, wk == 2 ? 20 : 44, brk);
  Mat<T> m = L.matrix_element(kinds[ik], kinds[jk], f, bp, deg);
  // derivatives lose digits: allow for the magnitude growth n^2 per order inside the sum
  long double tol = TOL * (1 + (ik % 3 + jk % 3) * 3) * (o.id == 8 ? 8 : o.id == 5 ? 4 : 1);
  cmp_matrix<T>(c.m, "rad.generic", m, M, tol);
  cmp_matrix<T>(c.m, "rad.generic_el", vfr::element_sum<T>(o, [&](size_t e) { return L.matrix_element(e, kinds[ik], kinds[jk], f, bp, deg); }), M, tol);
  Mat<T> mt = L.matrix_element(kinds[jk], kinds[ik], f, bp, deg);
  T sc = m.cwiseAbs().maxCoeff();
  c.m.small("rad.generic_transpose", (long double)((m - mt.transpose()).cwiseAbs().maxCoeff() / (sc > 0 ? sc : T(1))), 2 * tol * (long double)std::numeric_limits<T>::epsilon());
}
VF_SECTION("generic_double") { for (int i = 0; i < c.n(3 * 60, 500); i++) generic<double>(c); }
VF_SECTION("generic_large") { for (int i = 0; i < c.n(12, 100); i++) { vfr::Big b(1 + i % 2); generic<double>(c); } }
VF_SECTION_WIDE("generic_quad") { for (int i = 0; i < c.n(3 * 4, 40); i++) generic<_Float128>(c); for (int i = 0; i < c.n(3 * 6, 40); i++) generic<long double>(c); }

template <class T> void potentials(vf::Ctx &c) {
  auto &g = c.rng;
  auto o = vfr::make<T>(g, 4, 7, 0.5, 12);
  auto &R = o.R; auto &L = o.lib;
  int kind = g.pick({0, 1, 2, 3, 4, 5, 6, 6, 6, 7, 7, 8});
  int Z = g.integer(1, 60), LL = g.integer(0, 4);
  double x = g.uniform(0.05, 0.9) * o.b.back(), lam = g.loguniform(0.05, 2), r0 = g.loguniform(0.3, 5), V0 = g.loguniform(0.1, 10);
  int Nc = g.integer(1, 6);
  if (kind <= 3 && g.coin(0.4)) x = g.loguniform(1e-4, 0.05) * o.b.back();   // a nucleus much smaller than the first element
  c.m.begin(vf::fmt("potential kind=%d Z=%d L=%d x=%.6g lambda=%.6g r0=%.6g V=%.6g N=%d ", kind, Z, LL, x, lam, r0, V0, Nc) + o.desc);
  auto B0 = R.B(0); auto brk = vfr::geo(R, 0); int N = 44;
  auto cmp = [&](const char *k, std::function<Mat<T>(size_t)> f, std::function<q(q)> w, long double t = 1, q floor_ = 0) {
    auto M = R.matrix(B0, B0, w, N, brk);
    cmp_matrix<T>(c.m, k, vfr::element_sum<T>(o, f), M, TOL * t, floor_);
  };
  switch (kind) {
    case 0: { modelpotential::PointNucleusT<T> p(Z); cmp("rad.point", [&](size_t e) { return L.model_potential(&p, e); }, [Z](q r) { return -Z / r; }); break; }
    case 1: { modelpotential::HollowNucleusT<T> p(Z, (T)x); brk.push_back(x); for (double t = x * 1.5; t < o.b.back(); t *= 1.7) brk.push_back(t); cmp("rad.hollow", [&](size_t e) { return L.model_potential(&p, e); }, [Z, x](q r) { return r < (q)x ? -Z / (q)x : -Z / r; }); break; }
    case 2: { modelpotential::SphericalNucleusT<T> p(Z, (T)x * (T)0.5); q R0 = sqrtq(5 / 3.0Q) * (q)((T)x * (T)0.5); brk.push_back(R0); for (double t = x; t < o.b.back(); t *= 1.7) brk.push_back(t);
      cmp("rad.sphere", [&](size_t e) { return L.model_potential(&p, e); }, [Z, R0](q r) { return r < R0 ? -Z / (2 * R0) * (3 - r * r / R0 / R0) : -Z / r; }); break; }
    case 3: { modelpotential::GaussianNucleusT<T> p(Z, (T)x); q mu = sqrtq(1.5Q) / (q)(T)x; for (int e = 0; e < R.nel(); e++) for (int k = 1; k < 8; k++) brk.push_back(R.b[e] + (R.b[e + 1] - R.b[e]) * k / 8); for (double t = x / 2; t < o.b.back(); t *= 1.4) brk.push_back(t);
      cmp("rad.gaussian", [&](size_t e) { return L.model_potential(&p, e); }, [Z, mu](q r) { return -Z * erfq(mu * r) / r; }, 3); break; }
    case 4: cmp("rad.bessel_il", [&](size_t e) { return L.bessel_il_integral(LL, (T)lam, e); }, [&](q r) { return vfr::bessel_i(LL, (q)(T)lam * r); }, 4); break;
    case 5: { LL = 0; cmp("rad.bessel_kl", [&](size_t e) { return L.bessel_kl_integral(LL, (T)lam, e); }, [&](q r) { return vfr::bessel_k(LL, (q)(T)lam * r); }, 4); } break;
    case 6: {  // confinement
      int ic = g.integer(1, 4); T shift = g.coin(0.4) ? T(0) : (T)x; q s = (q)shift, R0 = (q)(T)r0; brk.push_back(s); int n = Nc;
      if (ic == 2) n = std::min(Nc, 4);
      c.m.event(vf::fmt("confinement_%d", ic));
      int sgn = (ic == 1 && g.coin(0.3)) ? -1 : 1;
      auto lf = [&](size_t e) { return L.confinement_potential(e, ic == 4 ? 1 : n, T(sgn) * (T)r0, ic, (T)V0, shift); };
      q rc = R.b.back();
      if (ic == 1) cmp("rad.conf_polynomial", lf, [=](q r) { return r < s ? (q)0 : sgn * powq((r - s) / R0, n); });
      if (ic == 2) { // the exponential minus its leading terms: rounding is relative to n!, not to the remainder
        q fl = 0; { auto S = R.matrix(B0, B0, nullptr, 20); for (auto &v : S) for (q z : v) fl = std::max(fl, fabsq(z)); } fl *= ref::factorial(n) / 100;
        if (o.b.back() / r0 < 20) cmp("rad.conf_exponential", lf, [=](q r) { if (r < s) return (q)0; q y = (r - s) / R0, t = 1, sum = 0; for (int k = 0; k < n; k++) { sum += t; t *= y / (k + 1); } // tail series to avoid cancellation
            q tail = 0, u = t; for (int k = n; k < 400; k++) { tail += u; u *= y / (k + 1); if (u < 1e-38Q * tail) break; } return ref::factorial(n) * tail; }, 30, fl); }
      if (ic == 3) cmp("rad.conf_barrier", lf, [=](q r) { return r < s ? (q)0 : (q)(T)V0; });
      if (ic == 4) {
        // essential singularity exp(-c/(r-s)) at r=s: geometric panels towards s
        for (q t = (rc - s) / 2; t > 1e-4Q * (rc - s); t /= 2) brk.push_back(s + t);
        q VV = (q)(T)V0;
        auto M = R.matrix(B0, B0, [=](q r) { return r <= s || r >= rc ? (q)0 : VV * expq(-(rc - s) / (r - s)) / (rc - r); }, N, brk);
        // the non-analytic onset limits the library's panel refinement (documented cap)
        cmp_matrix<T>(c.m, "rad.conf_junquera", vfr::element_sum<T>(o, lf), M, 1, 0, (q)1e-9Q);
      }
      break;
    }
    case 7: {  // off-centre nucleus at an element boundary
      if (R.nel() < 2) break;
      int ib = g.integer(1, R.nel() - 1); T Rh = (T)o.b[ib]; q rr = (q)Rh;
      q pre = -sqrtq(4 * M_PIq / (2 * LL + 1));
      cmp("rad.offcentre", [&](size_t e) { return L.nuclear_offcenter(e, Rh, LL); }, [=](q r) { q a = r < rr ? r : rr, b = r < rr ? rr : r; return pre * powq(a / b, LL) / b; });
      T inside = (T)(0.5 * (o.b[ib] + o.b[ib - 1]));
      c.m.require("rad.offcentre_inside_rejected", !vf::thrown([&] { L.nuclear_offcenter(ib - 1, inside, LL); }).empty());
      break;
    }
    case 8: {  // rejected confinement requests
      auto rej = [&](int n, int ic, T V, T s) { return !vf::thrown([&] { L.confinement_potential(0, n, (T)r0, ic, V, s); }).empty(); };
      c.m.require("rad.conf_rejects", rej(-1, 1, T(1), (T)x) && rej(0, 2, T(1), T(0)) && rej(-2, 2, T(1), T(0)) && rej(2, 3, T(-1), T(0)) && rej(0, 4, T(1), T(0)) && rej(2, 4, T(0), T(0)) && rej(2, 4, T(-2), T(0)) && rej(2, 0, T(1), T(0)) && rej(2, 5, T(1), T(0)));
      break;
    }
  }
}
VF_SECTION("potential_double") { for (int i = 0; i < c.n(3 * 70, 600); i++) potentials<double>(c); }
VF_SECTION("potential_large") { for (int i = 0; i < c.n(12, 100); i++) { vfr::Big b(1 + i % 2); potentials<double>(c); } }
VF_SECTION_WIDE("potential_long") { for (int i = 0; i < c.n(3 * 16, 100); i++) potentials<long double>(c); for (int i = 0; i < c.n(3 * 6, 40); i++) potentials<_Float128>(c); }

template <class T> void crossb(vf::Ctx &c) {
  auto &g = c.rng;
  bool samer = g.coin(0.7);
  double rm = g.loguniform(0.5, 30);
  auto a = vfr::make<T>(g, 4, 6, 0.5, 30, 0, 0, false, rm);
  auto b = vfr::make<T>(g, 4, 6, 0.5, 30, 0, 0, false, samer ? rm : rm * g.loguniform(0.3, 3));
  if (g.coin(0.2)) b = a;
  int n = g.pick({0, 0, 1, 2, 3, -1}); bool ld = g.coin(0.3), rd = g.coin(0.3);
  if (n < 0) ld = rd = false;
  double al = g.loguniform(0.1, 2);
  c.m.begin(vf::fmt("cross n=%d lhder=%d rhder=%d A:", n, ld, rd) + a.desc + " B:" + b.desc);
  std::vector<q> brk; q t0 = std::min(a.R.b[1], b.R.b[1]);
  for (q t = t0; t < (q)rm; t *= 1.7Q) brk.push_back(t);
  auto fq = [n](q r) { return powq(r, n); };
  auto M = vfr::cross(a.R, b.R, ld, rd, fq, 30, brk);
  Mat<T> m = a.lib.radial_integral(b.lib, n, ld, rd), mt = b.lib.radial_integral(a.lib, n, rd, ld);
  long double tol = TOL * (1 + ld + rd) * 2;
  cmp_matrix<T>(c.m, "rad.cross", m, M, tol);
  T sc = m.cwiseAbs().maxCoeff();
  c.m.small("rad.cross_exchange", (long double)((m - mt.transpose()).cwiseAbs().maxCoeff() / (sc > T(0) ? sc : T(1))), 2 * tol * (long double)std::numeric_limits<T>::epsilon());
  Mat<T> s = a.lib.overlap(b.lib);
  cmp_matrix<T>(c.m, "rad.cross_overlap", s, vfr::cross(a.R, b.R, 0, 0, nullptr, 20), tol);
  Mat<T> self = a.lib.overlap(a.lib), own = a.lib.overlap();
  c.m.small("rad.cross_self", (long double)((self - own).cwiseAbs().maxCoeff() / own.cwiseAbs().maxCoeff()), tol * (long double)std::numeric_limits<T>::epsilon());
  modelpotential::GaussianNucleusT<T> gn(g.integer(1, 20), (T)(rm * 0.5)); q mu = (q)gn.get_mu();
  auto Mg = vfr::cross(a.R, b.R, 0, 0, [al](q r) { return expq(-(q)al * r); }, 34, brk);
  typedef typename RBT<T>::BasisKind BK;
  cmp_matrix<T>(c.m, "rad.cross_weight", a.lib.matrix_element(b.lib, BK::B0, BK::B0, [al](T r) { return std::exp(-(T)al * r); }), Mg, tol);
  // potentials with a kink (hollow shell, uniform sphere) inside the elements
  double xk = g.coin(0.5) ? g.uniform(0.05, 0.9) * rm : g.loguniform(0.01, 0.2) * std::min(a.b[1], b.b[1]); int Z = g.integer(1, 60); bool sph = g.coin(); modelpotential::SphericalNucleusT<T> sn(Z, (T)xk); modelpotential::HollowNucleusT<T> hn(Z, (T)xk); q rk = sph ? (q)sn.get_R0() : (q)(T)xk;
  auto bk = brk; bk.push_back(rk); for (q t = rk * 1.5Q; t < (q)rm; t *= 1.7Q) bk.push_back(t);
  auto Mk = vfr::cross(a.R, b.R, ld, rd, [=](q r) { return r < rk ? (sph ? -Z / (2 * rk) * (3 - r * r / rk / rk) : -Z / rk) : -Z / r; }, 34, bk);
  cmp_matrix<T>(c.m, sph ? "rad.cross_sphere" : "rad.cross_hollow", a.lib.model_potential(b.lib, sph ? (modelpotential::ModelPotentialT<T> *)&sn : &hn, ld, rd), Mk, tol, 0, 0, vf::fmt("r=%.8g", (double)rk));
  c.m.require("rad.cross_rejects_R", !vf::thrown([&] { a.lib.matrix_element(b.lib, BK::R0, BK::B0); }).empty() && !vf::thrown([&] { a.lib.matrix_element(b.lib, BK::B1, BK::R1); }).empty());
  (void)mu;
}
VF_SECTION("cross_double") { for (int i = 0; i < c.n(3 * 30, 250); i++) crossb<double>(c); }
VF_SECTION("cross_large") { for (int i = 0; i < c.n(8, 80); i++) { vfr::Big b(1 + i % 2); crossb<double>(c); } }
VF_SECTION_WIDE("cross_wide") { for (int i = 0; i < c.n(3 * 6, 40); i++) crossb<long double>(c); for (int i = 0; i < c.n(3 * 2, 12); i++) crossb<_Float128>(c); }

template <class T> void evalcase(vf::Ctx &c) {
  auto &g = c.rng;
  auto o = vfr::make<T>(g, 5, 8, 0.5, 60, 0, 0, g.coin(0.2));
  auto &R = o.R; auto &L = o.lib;
  c.m.begin("eval " + o.desc);
  const q eps = (q)std::numeric_limits<T>::epsilon();
  c.m.require("rad.meta", L.get_nquad() == o.nq && L.get_xq().size() == o.nq && L.get_poly_id() == o.id && L.get_poly_nnodes() == o.n && L.get_bval().size() == (Eigen::Index)o.b.size());
  long double cond = powl(std::max(1.0L, o.n * o.n / 4.0L), R.p.per() - 1);
  bool cached = g.coin();
  int lvl = g.integer(0, 2);
  // per-element evaluation, B/r and derivatives, also very close to the origin
  for (int pass = 0; pass < 2; pass++) {
    if (pass == 1) { if (!cached) break; L.fill_quadrature_cache(lvl >= 1, lvl >= 2); c.m.event("cached_evaluation"); }
    for (int e = 0; e < R.nel(); e++) {
      Vec<T> xq = L.get_xq(), r = L.get_r(e), w = L.get_wrad(e);
      Mat<T> v[3] = {L.get_bf(e), L.get_df(e), L.get_lf(e)}, u[3] = {L.get_bf(xq, e), L.get_df(xq, e), L.get_lf(xq, e)};
      for (int d = 0; d < 3; d++) c.m.require("rad.cache_equals_direct", v[d].rows() == u[d].rows() && v[d].cols() == u[d].cols() && (v[d] - u[d]).norm() == T(0), vf::fmt("d=%d e=%d", d, e));
      if (pass) continue;
      Vec<T> xs(6); xs << T(-1), T(1), (T)g.uniform(-1, 1), T(-1) + (T)g.loguniform(1e-12, 1e-2), T(-1) + (T)1e-7, (T)g.uniform(-1, 1);
      Vec<T> rr = L.get_r(xs, e);
      for (int i = 0; i < 6; i++) c.m.small("rad.r", (long double)(((q)rr(i) - (R.mid(e) + R.half(e) * (q)xs(i))) / (eps * (R.mid(e) + R.half(e)))), 8);
      for (int d = 0; d < 3; d++) {
        Mat<T> b = d == 0 ? L.get_bf(xs, e) : d == 1 ? L.get_df(xs, e) : L.get_lf(xs, e);
        if (!c.m.require("rad.eval_shape", b.rows() == 6 && b.cols() == (Eigen::Index)R.loc[e].size())) return;
        for (int i = 0; i < 6; i++) {
          auto w_ = R.evalR(e, (q)xs(i), d);
          q rloc = e == 0 ? R.half(0) : R.b[e];
          for (size_t k = 0; k < w_.size(); k++) {
            int der = R.p.per() == 1 ? 0 : R.loc[e][k] % R.p.per();
            q hs = R.half(e);
            q sc = powq(hs, der) * powq((q)o.n * o.n / std::min(hs, rloc), d) / std::min(hs, rloc) * 1;
            if (e == 0) sc = powq(hs, der - d - 1) * powq((q)o.n, 2 * (d + 1));
            sc = std::max(sc, fabsq(w_[k]));
            c.m.small("rad.R_values", (long double)(((q)b(i, k) - w_[k]) / (eps * sc)), 400.0L * o.n * cond, vf::fmt("e=%d d=%d x=%.10g k=%d", e, d, (double)xs(i), (int)k));
          }
        }
      }
      q sw = 0; for (int i = 0; i < w.size(); i++) sw += (q)w(i);
      Vec<T> ones = Vec<T>::Ones(3);
      c.m.small("rad.wrad_user", (long double)(((q)L.get_wrad(ones, e)(1) - R.half(e)) / (eps * (R.mid(e) + R.half(e)))), 8);
      (void)sw; (void)r;
    }
  }
  // orbitals
  int nc = g.integer(1, 4);
  Mat<T> C(R.nbf, nc), P;
  for (int i = 0; i < R.nbf; i++) for (int j = 0; j < nc; j++) C(i, j) = (T)g.gauss();
  q cm = 0; for (int i = 0; i < C.size(); i++) cm += fabsq((q)C.data()[i]);
  for (int k = 0; k < 12; k++) {
    T r = k == 0 ? T(0) : k == 1 ? (T)o.b.back() : k < 5 ? (T)o.b[g.integer(0, R.nel())] : k == 5 ? (T)(o.b[1] * g.loguniform(1e-12, 1e-3)) : (T)g.uniform(0, o.b.back());
    Vec<T> v = L.eval_orbs(C, r);
    if (!c.m.require("rad.orb_shape", v.size() == nc)) break;
    int e = R.find((q)r); auto f = R.evalR(e, R.xof(e, (q)r), 0);
    q rloc = e == 0 ? R.half(0) / o.n / o.n : R.b[e];
    for (int j = 0; j < nc; j++) {
      q s = 0; for (size_t a = 0; a < f.size(); a++) s += f[a] * (q)C(R.glo[e][a], j);
      // rounding of r/x: slope n^2/h
      q slope = 1 + (R.mid(e) + R.half(e)) / R.half(e) * o.n * o.n * 0.02Q;
      c.m.small("rad.eval_orbs", (long double)(((q)v(j) - s) / (eps * cm * slope * std::max((q)1, powq(R.half(e), R.p.per() - 1)) / rloc)), 800.0L * o.n * cond, vf::fmt("r=%.17g", (double)r));
    }
  }
  Vec<T> out = L.eval_orbs(C, (T)(o.b.back() * (1 + g.loguniform(1e-6, 10))));
  c.m.require("rad.orb_outside_zero", out.size() == nc && out.norm() == T(0));
  // at the nucleus
  P = C * C.transpose();
  auto d1 = R.eval(0, -1, 1), d2 = R.eval(0, -1, 2);
  q nd = 0, ng = 0, sc1 = 0, sc2 = 0;
  for (size_t a = 0; a < d1.size(); a++) for (size_t b = 0; b < d1.size(); b++) {
    q p = (q)P(R.glo[0][a], R.glo[0][b]); nd += p * d1[a] * d1[b]; ng += p * d1[a] * d2[b]; sc1 += fabsq(p * d1[a] * d1[b]); sc2 += fabsq(p * d1[a] * d2[b]);
  }
  c.m.small("rad.nuclear_density", (long double)(((q)L.nuclear_density(P) - nd) / (eps * sc1)), 4000 * cond);
  c.m.small("rad.nuclear_density_gradient", (long double)(((q)L.nuclear_density_gradient(P) - ng) / (eps * sc2)), 8000 * cond);
  RowVec<T> no = L.nuclear_orbital(C);
  for (int j = 0; j < nc; j++) {
    q s = 0, sc = 0; for (size_t a = 0; a < d1.size(); a++) { s += d1[a] * (q)C(R.glo[0][a], j); sc += fabsq(d1[a] * (q)C(R.glo[0][a], j)); }
    c.m.small("rad.nuclear_orbital", (long double)(((q)no(j) - s) / (eps * sc)), 4000 * cond);
  }
  Mat<T> bad = Mat<T>::Zero(R.nbf + 1, R.nbf + 1);
  c.m.require("rad.nuclear_rejects_shape", !vf::thrown([&] { L.nuclear_density(bad); }).empty() && !vf::thrown([&] { L.nuclear_density_gradient(bad); }).empty());
}
VF_SECTION("eval_double") { for (int i = 0; i < c.n(3 * 40, 400); i++) evalcase<double>(c); }
VF_SECTION("eval_large") { for (int i = 0; i < c.n(12, 100); i++) { vfr::Big b(1 + i % 2); evalcase<double>(c); } }
VF_SECTION_WIDE("eval_wide") { for (int i = 0; i < c.n(3 * 10, 60); i++) evalcase<long double>(c); for (int i = 0; i < c.n(3 * 4, 30); i++) evalcase<_Float128>(c); }
VF_MAIN
