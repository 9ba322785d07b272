// P19: results do not depend on the number of threads or on scheduling, and no data race occurs.
// Every workload builds fresh objects from a fixed seed, so the runs differ only in the team that
// executes them.  In the plain build the runs use the system's OpenMP runtime; under ThreadSanitizer
// they use shims/gomp_tsan.cpp, which the detector sees through and which perturbs the schedule.
#include "refxc.h"
#include <omp.h>
#include <chebyshev.h>
#include <lobatto.h>
#include <FiniteElementBasis.h>
#include <NAORadialBasis.h>
#include <CoulombExchangeFE.h>
#include <general/gaunt.h>
#include <general/model_potential.h>
#include <atomic/dftgrid.h>
#include <sadatom/dftgrid.h>
#include <diatomic/dftgrid.h>
#include <diatomic/dftgrid_purem.h>
#include <diatomic/twodquadrature.h>
extern "C" void vf_omp_seed(unsigned long long) __attribute__((weak));
extern "C" unsigned long long vf_omp_regions() __attribute__((weak));
using namespace helfem;
#ifdef __SANITIZE_THREAD__
static const bool TSAN = true;
#else
static const bool TSAN = false;
#endif
struct Out {
  std::vector<std::pair<std::string, std::vector<long double>>> v;
  template <class T> void add(const std::string &k, const helfem::Mat<T> &m) { std::vector<long double> x; for (Eigen::Index i = 0; i < m.size(); i++) x.push_back((long double)m.data()[i]); v.push_back({k, x}); }
  template <class T> void addv(const std::string &k, const helfem::Vec<T> &m) { std::vector<long double> x; for (Eigen::Index i = 0; i < m.size(); i++) x.push_back((long double)m.data()[i]); v.push_back({k, x}); }
  void add(const std::string &k, double d) { v.push_back({k, {d}}); }
  void add(const std::string &k, const Cube &c) { for (size_t i = 0; i < c.size(); i++) add<double>(k, c[i]); }
};
typedef std::function<void(vf::Rng &, Out &)> Work;
static Matrix symm(vf::Rng &g, int n) { Matrix P(n, n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) P(i, j) = P(j, i) = g.uniform(-1, 1); return P; }
template <class T> Mat<T> psd(vf::Rng &g, int n, int k = 3) { Mat<T> C(n, k); for (int i = 0; i < n; i++) for (int j = 0; j < k; j++) C(i, j) = (T)g.uniform(-1, 1); return C * C.transpose(); }

static void compare(vf::Ctx &c, const std::string &t, const Work &w, const std::vector<int> &teams, int reps, int cases, double tol = 1e-10) {
  for (int k = 0; k < cases; k++) {
    // the teams run first, so that whatever is initialised on first use is initialised by a team
    uint64_t s = c.rng.next(); std::vector<std::pair<std::string, Out>> runs;
    for (int r = 0; r < reps; r++) for (int n : teams) {
      std::string d = t + vf::fmt(" seed=%llu team=%d rep=%d", (unsigned long long)s, n, r); c.m.begin(d); omp_set_num_threads(n); if (vf_omp_seed) vf_omp_seed(s ^ (c.seed * 7919) ^ (0x9e3779b9ull * (n * 100 + r + 1)));
      unsigned long long r0 = vf_omp_regions ? vf_omp_regions() : 0; Out o; { vf::Rng g(s); w(g, o); } if (vf_omp_regions) c.m.event("parallel_regions", vf_omp_regions() - r0); runs.push_back({d, o});
    }
    Out ref; omp_set_num_threads(1); { vf::Rng g(s); w(g, ref); } size_t nv = 0; for (auto &p : ref.v) nv += p.second.size(); c.m.event("values_compared", nv * runs.size());
    for (auto &run : runs) {
      c.m.begin(run.first); Out &o = run.second; if (!c.m.require(t + ".same_results", o.v.size() == ref.v.size(), "number of results differs")) continue;
      for (size_t i = 0; i < o.v.size(); i++) {
        auto &a = ref.v[i].second, &b = o.v[i].second; if (!c.m.require(t + "." + ref.v[i].first + ".size", a.size() == b.size())) continue;
        long double sc = 0, er = 0; bool nan = false; for (size_t j = 0; j < a.size(); j++) { if (std::isfinite(a[j])) sc = std::max(sc, std::abs(a[j])); if (std::isfinite(a[j]) != std::isfinite(b[j])) nan = true; else if (std::isfinite(a[j])) er = std::max(er, std::abs(a[j] - b[j])); }
        c.m.small(t + "." + ref.v[i].first, nan ? NAN : er, tol * (sc > 0 ? sc : 1));
      }
      c.m.event("runs_compared");
    }
  }
  omp_set_num_threads(1);
}
static std::vector<int> teams(vf::Ctx &c) { return TSAN ? std::vector<int>{4} : c.thorough ? std::vector<int>{2, 3, 4, 5, 8, 13, 16} : std::vector<int>{2, 3, 5, 8}; }
static int reps(vf::Ctx &c) { return TSAN ? (c.thorough ? 4 : 1) : c.thorough ? 5 : 2; }

template <class T> void w_fem(vf::Rng &g, Out &o) {
  int nel = g.integer(3, 9), nn = g.integer(3, 6); auto p = make_poly<T>(4, nn); auto b = random_bval(g, nel, 0, g.uniform(2, 20));
  polynomial_basis::FiniteElementBasisT<T> fe(p, to_vec<T>(b), true, false, true, false);
  // a weight no order can resolve, in every element: the order cap is hit by several threads at once
  std::function<T(T)> rough = [](T r) { return T(std::sin((double)(r * r) * 3e5)) > T(0) ? T(1) : T(-1); }; auto M = fe.matrix_element(0, 0, rough); o.add<T>("auto_rough", M);
  Vec<T> x, w; lobatto::lobatto_compute<T>(20, x, w); std::function<T(T)> f = [](T r) { return std::exp(-r); };
  o.add<T>("matrix", fe.matrix_element(0, 1, x, w, f)); o.addv<T>("vector", fe.vector_element(1, x, w, f)); o.add<T>("auto", fe.matrix_element(1, 1, f));
  T kink = T(b.back()) / T(3); std::function<T(T)> h = [kink](T r) { return r > kink ? T(1) : T(0); }; o.add<T>("auto_split", fe.matrix_element(0, 0, h, {kink}));
}
VF_SECTION("fem") {
  compare(c, "fem_double", w_fem<double>, teams(c), reps(c), c.n(TSAN ? 1 : 3, TSAN ? 4 : 12));
  compare(c, "fem_long", w_fem<long double>, teams(c), reps(c), c.n(1, 4));
}
template <class T> void w_atomic(vf::Rng &g, Out &o, int kind) {
  vfa::Opt op; op.maxel = TSAN ? 3 : 5; op.maxn = TSAN ? 4 : 5; op.lmax = TSAN ? 1 : 2; op.maxang = TSAN ? 4 : 6; op.offc = g.coin(); auto a = vfa::make<T>(g, op); auto P = psd<T>(g, a.lib.Nbf());
  if (kind == 0) { o.add<T>("S", a.lib.overlap()); o.add<T>("T", a.lib.kinetic()); o.add<T>("V", a.lib.nuclear()); o.add<T>("dip", a.lib.dipole_z()); o.add<T>("quad", a.lib.quadrupole_zz()); a.lib.compute_tei(true); for (int i = 0; i < 2; i++) { o.add<T>("J", a.lib.coulomb(P)); o.add<T>("K", a.lib.exchange(P)); } auto B = a.lib.radial_df_factors(); for (auto &v : B) { Mat<T> s = Mat<T>::Zero(a.lib.Nrad(), a.lib.Nrad()); for (auto &m : v) s += m * m.transpose(); o.add<T>("df", s); } }
  else if (kind == 1) { a.lib.compute_tei(true); a.lib.compute_yukawa(T(g.uniform(0.1, 2))); o.add<T>("K_yukawa", a.lib.rs_exchange(P)); o.add<T>("K", a.lib.exchange(P)); }
  else { a.lib.compute_tei(true); a.lib.compute_erfc(T(g.uniform(0.1, 2))); o.add<T>("K_erfc", a.lib.rs_exchange(P)); o.add<T>("J", a.lib.coulomb(P)); }
}
VF_SECTION("atomic") { compare(c, "atomic", [](vf::Rng &g, Out &o) { w_atomic<double>(g, o, 0); }, teams(c), reps(c), c.n(TSAN ? 2 : 4, TSAN ? 6 : 16)); }
VF_SECTION("atomic_rs") {
  compare(c, "atomic_yukawa", [](vf::Rng &g, Out &o) { w_atomic<double>(g, o, 1); }, teams(c), reps(c), c.n(TSAN ? 1 : 2, TSAN ? 3 : 10));
  compare(c, "atomic_erfc", [](vf::Rng &g, Out &o) { w_atomic<double>(g, o, 2); }, teams(c), reps(c), c.n(TSAN ? 1 : 2, TSAN ? 3 : 10));
}
VF_SECTION("atomic_long") { compare(c, "atomic_long", [](vf::Rng &g, Out &o) { w_atomic<long double>(g, o, 0); }, teams(c), 1, c.n(1, 4)); }
// two-electron blocks whose refinement ends at the order cap, in several elements at once
VF_SECTION("twoe_cap") {
  compare(c, "twoe_cap", [](vf::Rng &g, Out &o) {
    int nel = 4; auto b = random_bval(g, nel, 0, g.uniform(400, 1000)); std::shared_ptr<const polynomial_basis::PolynomialBasis> p = make_poly<double>(4, 3);
    polynomial_basis::FiniteElementBasis fe(p, to_vec<double>(b), true, false, true, false); atomic::basis::FEMRadialBasis r(fe, 10); 
    std::vector<Matrix> t, kt; atomic::basis::compute_in_element_tei<double>(r, 1, t, true, g.uniform(10., 20.)); atomic::basis::compute_in_element_ktei_from_tei<double>(r, 1, t, kt); for (auto &m : t) o.add<double>("yukawa", m); for (auto &m : kt) o.add<double>("kyukawa", m);
  }, {3}, 1, c.n(1, 3), 1e-8);
}
VF_SECTION("sadatom") {
  compare(c, "sadatom", [](vf::Rng &g, Out &o) {
    auto a = vfs::make(g, TSAN ? 3 : 5, TSAN ? 4 : 5, 5, 40, 2); Cube P; for (int l = 0; l <= a.lmax; l++) P.push_back(psd<double>(g, a.lib.Nbf(), 2)); Matrix S = vfs::total(P);
    o.add<double>("S", a.lib.overlap()); o.add<double>("T", a.lib.kinetic()); a.lib.compute_tei(); o.add<double>("J", a.lib.coulomb(S)); o.add("K", a.lib.exchange(P));
    a.lib.compute_yukawa(g.uniform(0.1, 2)); o.add("K_yukawa", a.lib.rs_exchange(P)); a.lib.compute_erfc(g.uniform(0.1, 1)); o.add("K_erfc", a.lib.rs_exchange(P));
    o.addv<double>("n", a.lib.electron_density(S)); o.addv<double>("dn", a.lib.electron_density_gradient(S)); o.addv<double>("d2n", a.lib.electron_density_laplacian(S));
  }, teams(c), reps(c), c.n(TSAN ? 2 : 4, TSAN ? 6 : 16));
}
static vfd::DB dia(vf::Rng &g, bool leg) { vfd::Opt op; op.legendre = leg; op.maxel = 3; op.maxn = TSAN ? 4 : 5; op.lmax = TSAN ? 1 : 2; op.maxang = TSAN ? 4 : 5; op.ids = {3, 4, 4, 8}; return vfd::make(g, op); }
VF_SECTION("diatomic") {
  compare(c, "diatomic", [](vf::Rng &g, Out &o) {
    auto a = dia(g, true); Matrix P = psd<double>(g, a.lib->Nbf()); o.add<double>("S", a.lib->overlap()); o.add<double>("T", a.lib->kinetic()); o.add<double>("V", a.lib->nuclear());
    a.lib->compute_tei(true); for (int i = 0; i < 2; i++) { o.add<double>("J", a.lib->coulomb(P)); o.add<double>("K", a.lib->exchange(P)); }
    if (g.coin()) { bool full = true; for (size_t i = 0; i < a.m.size(); i++) { bool f = false; for (size_t j = 0; j < a.m.size(); j++) if (a.m[j] == -a.m[i] && a.l[j] == a.l[i]) f = true; full = full && f; } if (full) { a.lib->set_absm_symmetric(true); o.add<double>("K_absm", a.lib->exchange(P)); } }
  }, teams(c), reps(c), c.n(TSAN ? 2 : 4, TSAN ? 5 : 14));
}
VF_SECTION("diatomic_cap") {
  compare(c, "diatomic_cap", [](vf::Rng &g, Out &o) {
    vfd::Opt op; op.legendre = true; op.nel = 2; op.ids = {4}; op.maxn = 3; op.lmax = 0; op.maxang = 1; op.mumax = g.uniform(40, 60); auto a = vfd::make(g, op); a.lib->compute_tei(true); Matrix P = psd<double>(g, a.lib->Nbf()); o.add<double>("J", a.lib->coulomb(P));
  }, {2}, 1, 1, 1e-6);
}
static void xc_works(vf::Ctx &c, const std::string &t, const std::function<void(vf::Rng &, Out &, const std::vector<std::pair<int, int>> &)> &w, int n) {
  std::vector<std::pair<int, int>> f{{XC_LDA_X, XC_LDA_C_VWN}, {XC_GGA_X_PBE, XC_GGA_C_PBE}, {XC_MGGA_X_TPSS, XC_MGGA_C_TPSS}}; if (TSAN) f = {{XC_LDA_X, XC_LDA_C_VWN}, {XC_MGGA_X_TPSS, XC_MGGA_C_TPSS}};
  compare(c, t, [&](vf::Rng &g, Out &o) { w(g, o, f); }, teams(c), reps(c), n, 1e-9);
}
VF_SECTION("xc_atomic") {
  xc_works(c, "xc_atomic", [](vf::Rng &g, Out &o, const std::vector<std::pair<int, int>> &fs) {
    vfa::Opt op; op.maxel = TSAN ? 3 : 5; op.maxn = 4; op.lmax = 1; op.maxang = 3; auto a = vfa::make<double>(g, op); Matrix P = psd<double>(g, a.lib.Nbf()), Q = psd<double>(g, a.lib.Nbf()), H, Hb; double E, N, K; Vector e;
    for (auto &f : fs) { atomic::dftgrid::DFTGrid G(&a.lib, 8, 8); G.eval_Fxc(f.first, e, f.second, e, P, H, E, N, K, 1e-10); o.add<double>("H", H); o.add("E", E); o.add("N", N); o.add("K", K); G.eval_Fxc(f.first, e, f.second, e, P, Q, H, Hb, E, N, K, true, 1e-10); o.add<double>("Ha", H); o.add<double>("Hb", Hb); o.add("E2", E); }
  }, c.n(TSAN ? 1 : 3, TSAN ? 4 : 12));
}
VF_SECTION("xc_sadatom") {
  xc_works(c, "xc_sadatom", [](vf::Rng &g, Out &o, const std::vector<std::pair<int, int>> &fs) {
    auto a = vfs::make(g, 6, 6, 5, 30, 2); Cube P, Q, H, Hb; for (int l = 0; l <= a.lmax; l++) { P.push_back(psd<double>(g, a.lib.Nbf(), 2)); Q.push_back(psd<double>(g, a.lib.Nbf(), 2)); } double E, N; Vector e;
    for (auto &f : fs) { sadatom::dftgrid::DFTGrid G(&a.lib); G.eval_Fxc(f.first, e, f.second, e, P, H, E, N, 1e-10); o.add("H", H); o.add("E", E); o.add("N", N); G.eval_Fxc(f.first, e, f.second, e, P, Q, H, Hb, E, N, true, 1e-10); o.add("Ha", H); o.add("Hb", Hb); o.add("E2", E); }
  }, c.n(TSAN ? 1 : 4, TSAN ? 4 : 16));
}
VF_SECTION("xc_diatomic") {
  xc_works(c, "xc_diatomic", [](vf::Rng &g, Out &o, const std::vector<std::pair<int, int>> &fs) {
    auto a = dia(g, false); Matrix P = psd<double>(g, a.lib->Nbf()), Q = psd<double>(g, a.lib->Nbf()), H, Hb; double E, N, K; Vector e; int mm = 0; for (int v : a.m) mm = std::max(mm, std::abs(v));
    Matrix Pm = P; for (int i = 0; i < a.nang(); i++) for (int j = 0; j < a.nang(); j++) if (a.m[i] != a.m[j]) Pm.block(a.off[i], a.off[j], a.nr(i), a.nr(j)).setZero();
    for (auto &f : fs) {
      { diatomic::dftgrid::DFTGrid G(a.lib.get(), 10, 2 * mm + 5); G.eval_Fxc(f.first, e, f.second, e, P, H, E, N, K, 1e-10); o.add<double>("H", H); o.add("E", E); o.add("N", N); o.add("K", K); G.eval_Fxc(f.first, e, f.second, e, P, Q, H, Hb, E, N, K, true, 1e-10); o.add<double>("Ha", H); o.add<double>("Hb", Hb); o.add("E2", E); }
      { diatomic::dftgrid_purem::PureMDFTGrid G(a.lib.get(), 10); G.eval_Fxc(f.first, e, f.second, e, Pm, H, E, N, K, 1e-10); o.add<double>("H_purem", H); o.add("E_purem", E); }
    }
  }, c.n(TSAN ? 1 : 2, TSAN ? 4 : 10));
}
VF_SECTION("projection") {
  compare(c, "projection", [](vf::Rng &g, Out &o) {
    auto a = dia(g, false); diatomic::twodquad::TwoDGrid G(a.lib.get(), g.integer(6, 20)); modelpotential::PointNucleus p1(g.integer(1, 9)); modelpotential::RegularizedNucleus p2(g.integer(1, 9), 0.1); o.add<double>("V", G.model_potential(&p1, &p2));
    Vector x(3); for (int i = 0; i < 3; i++) x(i) = g.loguniform(0.1, 10); int l = g.integer(0, 2), m = g.integer(-l, l); for (auto p : {diatomic::twodquad::PROBE_LEFT, diatomic::twodquad::PROBE_MIDDLE, diatomic::twodquad::PROBE_RIGHT}) { o.add<double>("gto", G.gto_projection(l, m, x, p)); o.add<double>("sto", G.sto_projection(l, m, x, p)); o.add<double>("gto_S", G.gto_overlap(l, m, x, p)); }
  }, teams(c), reps(c), c.n(TSAN ? 1 : 3, TSAN ? 4 : 12));
}
VF_SECTION("gaunt") {
  compare(c, "gaunt", [](vf::Rng &g, Out &o) { int L = g.integer(2, TSAN ? 4 : 8), l = g.integer(1, 4); gaunt::Gaunt G(L, l, l); Vector v((L + 1) * (L + 1) * (l + 1) * (l + 1)); int k = 0; for (int a = 0; a <= L; a++) for (int b = -a; b <= a; b++) for (int p = 0; p <= l; p++) for (int q = -p; q <= p; q++) { double t = 0; for (int lp = std::abs(b - q); lp <= l; lp++) t += (1 + lp) * G.coeff(a, b, p, q, lp); v(k++) = t; } o.addv<double>("table", v); }, teams(c), reps(c), c.n(TSAN ? 2 : 6, 20));
}
VF_MAIN
