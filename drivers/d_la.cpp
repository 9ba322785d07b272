// P17: orthonormalisation, eigensolvers, symmetry blocks, density bookkeeping, text dumps
#include "util.h"
#include "refatom.h"
#include "refdia.h"
#include <general/eigen_io.h>
#include <general/scf_driver_common.h>
#include <Eigen/QR>
#include <fstream>
#include <../libhelfem/src/utils.h>
using namespace helfem; typedef _Float128 f128; typedef long double ld; typedef std::vector<Eigen::Index> Idx; typedef std::vector<Idx> Blocks;
template <class T> static ld amax(const Mat<T> &m) { T x = 0; for (Eigen::Index i = 0; i < m.size(); i++) { T v = m.data()[i]; if (v != v) return std::numeric_limits<ld>::quiet_NaN(); if (v < 0) v = -v; if (v > x) x = v; } return (ld)x; }
template <class T> static const char *tn() { return sizeof(T) == 8 ? "double" : std::is_same<T, ld>::value ? "ldouble" : "quad"; }
template <class T> static ld eps() { return (ld)std::numeric_limits<T>::epsilon(); }
static f128 rnd(vf::Rng &g) { return (f128)g.uniform(-1, 1) + (f128)0x1p-53 * (f128)g.uniform(-1, 1) + (f128)0x1p-106 * (f128)g.uniform(-1, 1); }
// random orthogonal matrix: product of Householder reflections
static Mat<f128> orth(vf::Rng &g, int n) { Mat<f128> Q = Mat<f128>::Identity(n, n); for (int k = 0; k < std::min(n, 6); k++) { Vec<f128> v(n); f128 s = 0; for (int i = 0; i < n; i++) { v(i) = rnd(g); s += v(i) * v(i); } if (s == 0) continue; Mat<f128> w = v.transpose() * Q; Q -= (v * w) * (2 / s); } return Q; }
// S = D A D, A positive definite with condition number about c, D a diagonal scaling
struct Met { Mat<f128> S, A; ld cond; };
static Met metric(vf::Rng &g, int n, ld c, ld scale) {
  Mat<f128> Q = orth(g, n); Vec<f128> e(n), d(n); for (int i = 0; i < n; i++) { e(i) = i == 0 ? (f128)1 : i == 1 ? (f128)(1 / c) : (f128)g.loguniform((double)(1 / c), 1); d(i) = (f128)g.loguniform((double)(1 / scale), (double)scale); }
  if (g.coin(0.2)) for (int i = 2; i < n; i++) if (g.coin(0.4)) e(i) = e(i - 1);
  Met m; Mat<f128> A = Q * e.asDiagonal() * Q.transpose(); A = ((A + A.transpose()) / 2).eval(); m.S = d.asDiagonal() * A * d.asDiagonal(); Vec<f128> u(n); for (int i = 0; i < n; i++) u(i) = 1 / sqrtq(A(i, i)); m.A = u.asDiagonal() * A * u.asDiagonal(); Eigen::SelfAdjointEigenSolver<Mat<f128>> es(m.A, Eigen::EigenvaluesOnly); m.cond = (ld)(es.eigenvalues()(n - 1) / es.eigenvalues()(0)); return m;
}
template <class T> static void invh_case(vf::Ctx &c, int it) {
  auto &g = c.rng; int n = std::is_same<T, f128>::value ? g.integer(1, 20) : g.integer(1, 45); ld top = 0.02L / (eps<T>() * n); ld cond = n == 1 ? 1 : g.coin(0.3) ? std::exp(g.uniform(0, 3)) : std::exp((ld)g.uniform(0, 1) * std::log(top)), sc = g.coin(0.4) ? 1 : g.loguniform(1, 1e10); c.m.begin(vf::fmt("invh %s n=%d cond=%.3Lg scale=%.3Lg %d", tn<T>(), n, cond, sc, it)); Met M = metric(g, n, cond, sc);
  Mat<T> S = M.S.cast<T>(), S0 = S; for (bool chol : {false, true}) {
    Mat<T> X; std::string t = vf::thrown([&] { X = it % 2 ? utils::invh<T>(S, chol) : scf::form_Sinvh<T>(S, chol); }); if (!c.m.require("invh_returns", t.empty(), t)) continue; c.m.require("invh_shape", X.rows() == n && X.cols() == n && S == S0);
    Mat<f128> q = X.template cast<f128>(), R = q.transpose() * S.template cast<f128>() * q - Mat<f128>::Identity(n, n); ld tol = 8 * eps<T>() * (n + 2) * M.cond; c.m.small(std::string(chol ? "cholesky_" : "symmetric_") + tn<T>(), amax<f128>(R), tol);
    // complete: X X^T is the inverse of S, in the normalised basis
    Vec<f128> d(n); for (int i = 0; i < n; i++) d(i) = sqrtq((f128)S(i, i)); Mat<f128> Y = d.asDiagonal() * q, N = d.cwiseInverse().asDiagonal() * S.template cast<f128>() * d.cwiseInverse().asDiagonal(); c.m.small("invh_complete", amax<f128>(Mat<f128>(N * Y * Y.transpose() - Mat<f128>::Identity(n, n))), 3 * tol);
    if (chol) { ld lo = 0; for (int j = 0; j < n; j++) for (int i = j + 1; i < n; i++) lo = std::max(lo, (ld)std::abs((double)Y(i, j))); c.m.small("cholesky_triangular", lo, tol); bool pos = true; for (int i = 0; i < n; i++) pos &= X(i, i) > 0; c.m.require("cholesky_positive", pos); }
    else c.m.small("symmetric_symmetric", amax<f128>(Mat<f128>(Y - Y.transpose())), tol * amax<f128>(Y) );
  }
  if (n > 1) { Mat<T> B = S; int i = g.integer(1, n - 1); B(i, 0) = B(0, i) = (T)(g.uniform(1.05, 4)) * std::sqrt(B(0, 0)) * std::sqrt(B(i, i)); c.m.require("indefinite_refused", !vf::thrown([&] { utils::invh<T>(B, true); }).empty()); }
}
VF_SECTION("invh") { for (int it = 0; it < c.n(150, 3000); it++) { invh_case<double>(c, it); invh_case<ld>(c, it); if (it % 3 == 0) invh_case<f128>(c, it); } }

static Matrix sym(vf::Rng &g, int n) { Matrix F(n, n); ld s = g.coin(0.3) ? g.loguniform(1e-6, 1e6) : 1; for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) F(i, j) = F(j, i) = (double)(s * g.uniform(-1, 1)); if (g.coin(0.2)) { F.setZero(); for (int i = 0; i < n; i++) F(i, i) = (double)(s * g.integer(-2, 2)); } return F; }
static void judge(vf::Ctx &c, const char *w, const Vector &E, const Matrix &C, const Matrix &F, const Matrix &S, const Matrix &X, ld cond) {
  Mat<ld> f = F.cast<ld>(), s = S.cast<ld>(), x = X.cast<ld>(), k = C.cast<ld>(); ld sc = amax<ld>(Mat<ld>(x.transpose() * f * x)) + 1e-300L; int n = F.rows(), m = C.cols();
  bool asc = true; for (int i = 1; i < m; i++) asc &= E(i) >= E(i - 1); c.m.require(std::string(w) + "_ascending", asc && E.size() == m && C.rows() == n);
  ld tol = 20 * eps<double>() * (n + 2) * cond; c.m.small(std::string(w) + "_orthonormal", amax<ld>(Mat<ld>(k.transpose() * s * k - Mat<ld>::Identity(m, m))), tol);
  // X^T (F C - S C E) in the orthonormal basis
  c.m.small(std::string(w) + "_equation", amax<ld>(Mat<ld>(x.transpose() * (f * k - s * k * E.cast<ld>().asDiagonal()))), tol * sc * n);
  Mat<ld> o = x.transpose() * f * x; o = ((o + o.transpose()) / 2).eval(); Eigen::SelfAdjointEigenSolver<Mat<ld>> es(o, Eigen::EigenvaluesOnly); c.m.small(std::string(w) + "_values", amax<ld>(Mat<ld>(es.eigenvalues() - E.cast<ld>())), 20 * eps<double>() * (n + 2) * sc * n);
}
static Blocks partition(vf::Rng &g, int n) { int k = g.integer(1, std::min(n, 6)); std::vector<int> own(n); for (int i = 0; i < n; i++) own[i] = i < k ? i : g.integer(0, k - 1); for (int i = n - 1; i > 0; i--) std::swap(own[i], own[g.integer(0, i)]); Blocks b(k); for (int i = 0; i < n; i++) b[own[i]].push_back(i); return b; }
VF_SECTION("eigen") {
  auto &g = c.rng; for (int it = 0; it < c.n(300, 6000); it++) {
    int n = g.integer(1, 30); ld cond = n == 1 ? 1 : g.loguniform(1, 1e9); c.m.begin(vf::fmt("eigen n=%d cond=%.3Lg %d", n, cond, it)); Matrix F = sym(g, n); Blocks b = partition(g, n); Matrix S = Matrix::Zero(n, n), X = Matrix::Zero(n, n), Fb = Matrix::Zero(n, n); Eigen::Index off = 0; ld cmax = 1;
    bool perm = g.coin(0.3); std::vector<size_t> order(b.size()); for (size_t i = 0; i < b.size(); i++) order[i] = i; if (perm) for (size_t i = b.size() - 1; i > 0; i--) std::swap(order[i], order[g.integer(0, (int)i)]);
    for (size_t o : order) { Idx &r = b[o]; int k = r.size(); Met m = metric(g, k, k == 1 ? 1 : cond, 1); Matrix s = m.S.cast<double>(), x = scf::form_Sinvh<double>(s, g.coin()); cmax = std::max(cmax, m.cond); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) { S(r[i], r[j]) = s(i, j); X(r[i], off + j) = x(i, j); Fb(r[i], r[j]) = F(r[i], r[j]); } off += k; }
    Vector E; Matrix C; scf::eig_gsym(E, C, F, X); judge(c, "full", E, C, F, S, X, cmax);
    Vector Eb; Matrix Cb; std::string t = vf::thrown([&] { scf::eig_gsym_sub(Eb, Cb, Fb, X, b, false); }); if (c.m.require("block_returns", t.empty(), t)) { judge(c, "block", Eb, Cb, Fb, S, X, cmax); Vector Ef; Matrix Cf; scf::eig_gsym(Ef, Cf, Fb, X); ld sc = amax<double>(X.transpose() * Fb * X); c.m.small("block_equals_full", amax<double>(Eb - Ef), 20 * eps<double>() * (n + 2) * sc * n);
      bool pure = true; for (int j = 0; j < n; j++) { int hit = 0; for (auto &r : b) { bool any = false; for (auto i : r) any |= Cb(i, j) != 0; hit += any; } pure &= hit == 1; } c.m.require("block_vectors_pure", pure); }
    // fewer vectors than functions, and lists that do not describe the blocks
    if (n > 2) { int k = g.integer(1, n - 1); Matrix Xs = X.leftCols(k); Vector E2; Matrix C2; scf::eig_gsym(E2, C2, F, Xs); judge(c, "subspace", E2, C2, F, S, Xs, cmax); }
    if (b.size() > 1) { Blocks w = b; int kind = g.integer(0, 2); const char *what = kind == 0 ? "missing block" : kind == 1 ? "repeated block" : "split block"; if (kind == 0) w.pop_back(); else if (kind == 1) w.push_back(b[0]); else { bool ok = false; for (auto &r : w) if (r.size() > 1) { Idx h(r.begin(), r.begin() + r.size() / 2); r.erase(r.begin(), r.begin() + r.size() / 2); w.push_back(h); ok = true; break; } if (!ok) continue; }
      if (kind == 2) { bool dense = true; for (auto &r : b) for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < r.size(); j++) dense &= S(r[i], r[j]) != 0; if (!dense) continue; }
      c.m.require("mismatch_refused", !vf::thrown([&] { Vector E3; Matrix C3; scf::eig_gsym_sub(E3, C3, Fb, X, w, false); }).empty(), what); }
  }
}
// symmetry blocks of the two-dimensional bases
template <class B> static void blocks_of(vf::Ctx &c, const B &x, const Matrix &H, const std::vector<int> &l, const std::vector<int> &m, int symm, bool uncoupled, const std::string &w) {
  Blocks b = x.get_sym_idx(symm); auto lab = x.get_sym_labels(symm); int N = (int)x.Nbf(); c.m.require(w + "_labels", lab.size() == b.size() && std::set<std::string>(lab.begin(), lab.end()).size() == lab.size());
  std::vector<int> seen(N, -1); bool okp = true; for (size_t k = 0; k < b.size(); k++) for (auto i : b[k]) { okp &= i >= 0 && i < N && seen[i] < 0; if (i >= 0 && i < N) seen[i] = k; } for (int v : seen) okp &= v >= 0; if (!c.m.require(w + "_partition", okp)) return;
  Matrix S = x.overlap(); ld off = 0, offH = 0, scH = amax<double>(H); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (seen[i] != seen[j]) { off = std::max(off, (ld)std::fabs(S(i, j))); offH = std::max(offH, (ld)std::fabs(H(i, j))); } if (uncoupled) { c.m.small(w + "_overlap_uncoupled", off, 1e-13L * amax<double>(S)); c.m.small(w + "_operator_uncoupled", offH, 1e-12L * scH); } else return;
  for (bool chol : {false, true}) { Matrix X; std::string t = vf::thrown([&] { X = x.Sinvh(chol, symm); }); if (!c.m.require(w + "_sinvh", t.empty(), t)) return; Vector d = S.diagonal().cwiseSqrt(); Matrix Ad = d.cwiseInverse().asDiagonal() * S * d.cwiseInverse().asDiagonal(); Mat<ld> A = Ad.cast<ld>(); Eigen::SelfAdjointEigenSolver<Mat<ld>> es(A, Eigen::EigenvaluesOnly); ld cond = es.eigenvalues()(N - 1) / es.eigenvalues()(0);
    ld tol = 20 * eps<double>() * (N + 2) * cond; Mat<ld> xl = X.cast<ld>(); c.m.small(w + "_orthonormal", amax<ld>(Mat<ld>(xl.transpose() * S.cast<ld>() * xl - Mat<ld>::Identity(N, N))), tol + 1e-12L);
    Vector E, Ef; Matrix C, Cf; t = vf::thrown([&] { scf::eig_gsym_sub(E, C, H, X, b, false); }); if (!c.m.require(w + "_solved", t.empty(), t)) return; scf::eig_gsym(Ef, Cf, H, x.Sinvh(chol, 0)); ld sc = amax<double>(Ef); c.m.small(w + "_energies", amax<double>(E - Ef), 1e-12L * sc * (1 + cond * 1e-3L) * N);
    bool ok = true; for (int j = 0; j < N; j++) { int hit = -1; for (int i = 0; i < N; i++) if (C(i, j) != 0) { ok &= hit < 0 || hit == seen[i]; hit = seen[i]; } } c.m.require(w + "_vectors_pure", ok); }
  // driver wiring: per-block orthonormalisation gives the same spectrum
  auto Xk = scf_driver::build_per_block_Sinvh(S, b); auto F = scf_driver::build_coreH_from_H0<double>(H, S, b, Xk, 1, false, 0); std::vector<double> e; for (auto &f : F) if (f.rows()) { Eigen::SelfAdjointEigenSolver<Matrix> es(f, Eigen::EigenvaluesOnly); for (int i = 0; i < f.rows(); i++) e.push_back(es.eigenvalues()(i)); } std::sort(e.begin(), e.end()); Vector Ef; Matrix Cf; scf::eig_gsym(Ef, Cf, H, x.Sinvh(false, 0)); ld er = 0; if (c.m.require(w + "_driver_count", (int)e.size() == N)) { for (int i = 0; i < N; i++) er = std::max(er, (ld)std::fabs(e[i] - Ef(i))); c.m.small(w + "_driver_energies", er, 1e-11L * amax<double>(Ef) * N); }
  (void)l; (void)m;
}
VF_SECTION("symmetry") {
  auto &g = c.rng; for (int it = 0; it < c.n(20, 300); it++) {
    if (it % 2) { vfa::Opt o; o.maxel = 2; o.rhi = 10; auto a = vfa::make<double>(g, o); c.m.begin("atomic " + a.desc); Matrix H = a.lib.kinetic() + a.lib.nuclear(); for (int s = 0; s <= 2; s++) blocks_of(c, a.lib, H, a.l, a.m, s, true, vf::fmt("atomic%d", s)); c.m.require("unknown_symmetry", !vf::thrown([&] { a.lib.get_sym_idx(17); }).empty() && !vf::thrown([&] { a.lib.get_sym_labels(17); }).empty()); }
    else { vfd::Opt o; o.maxel = 2; o.maxn = 4; bool closed = g.coin(0.6); auto a = vfd::make(g, o);
      if (closed) { std::set<std::pair<int, int>> s; for (size_t i = 0; i < a.l.size(); i++) s.insert({a.l[i], std::abs(a.m[i])}); a.l.clear(); a.m.clear(); std::vector<std::pair<int, int>> v(s.begin(), s.end()); for (size_t i = v.size(); i-- > 1;) std::swap(v[i], v[g.integer(0, (int)i)]); bool apart = g.coin(); for (int sg : {1, -1}) for (auto &p : v) if (apart ? (sg > 0 || p.second) : sg > 0) { a.l.push_back(p.first); a.m.push_back(sg * p.second); if (!apart && p.second) { a.l.push_back(p.first); a.m.push_back(-p.second); } } a = vfd::finish(a, false); }
      c.m.begin("diatomic " + a.desc); auto &x = *a.lib; Matrix H = x.kinetic() + x.nuclear(); for (int s = 0; s <= 2; s++) blocks_of(c, x, H, a.l, a.m, s, s < 2 || a.Z1 == a.Z2, vf::fmt("diatomic%d", s));
      for (int s = 0; s <= 2; s++) { auto mi = x.get_sym_mirror_idx(s); bool e = true; for (auto &v : mi) e &= v.empty(); c.m.require("no_mirror", e && mi.size() == x.get_sym_idx(s).size()); }
      if (closed) { Blocks b = x.get_sym_idx(3), mi = x.get_sym_mirror_idx(3); auto lab = x.get_sym_labels(3); bool ok = b.size() == mi.size() && lab.size() == b.size(); std::vector<int> seen(x.Nbf(), 0); ld d = 0, sc = amax<double>(H); for (size_t k = 0; ok && k < b.size(); k++) { for (auto i : b[k]) seen[i]++; for (auto i : mi[k]) seen[i]++; ok &= k == 0 ? mi[k].empty() : mi[k].size() == b[k].size(); if (ok && k) d = std::max(d, amax<double>(Matrix(H(b[k], b[k]) - H(mi[k], mi[k])))); } for (int v : seen) ok &= v == 1; c.m.require("mirror_partition", ok); if (ok) c.m.small("mirror_same_problem", d, 1e-12L * sc); c.m.event("mirrored_bases"); }
      c.m.require("unknown_symmetry", !vf::thrown([&] { x.get_sym_idx(17); }).empty() && !vf::thrown([&] { x.get_sym_labels(17); }).empty()); }
  }
}
// density bookkeeping shared by the drivers
using OpenOrbitalOptimizer::Orbitals; using OpenOrbitalOptimizer::OrbitalOccupations; typedef std::pair<Matrix, Matrix> MM;
template <class M> static auto final_density_(int, size_t n, bool r, const Blocks &b, const std::vector<M> &X, const Orbitals<double> &o, const OrbitalOccupations<double> &f, const Blocks &m) -> decltype(MM(scf_driver::assemble_final_density<double>(n, r, b, X, o, f, m))) { return scf_driver::assemble_final_density<double>(n, r, b, X, o, f, m); }
template <class M> static MM final_density_(long, size_t n, bool r, const Blocks &b, const std::vector<M> &X, const Orbitals<double> &o, const OrbitalOccupations<double> &f, const Blocks &) { return scf_driver::assemble_final_density<double>(n, r, b, X, o, f); }
static MM final_density(size_t n, bool r, const Blocks &b, const std::vector<Matrix> &X, const Orbitals<double> &o, const OrbitalOccupations<double> &f, const Blocks &m) { return final_density_(0, n, r, b, X, o, f, m); }
template <class I> static auto load_(int, Orbitals<double> &o, OrbitalOccupations<double> &f, const Matrix &P, const I &b, const Matrix &X, double top, const I *m) -> decltype(scf_driver::fill_block_from_density<double>(0, o, f, P, b, X, top, m)) { return scf_driver::fill_block_from_density<double>(0, o, f, P, b, X, top, m); }
template <class I> static void load_(long, Orbitals<double> &o, OrbitalOccupations<double> &f, const Matrix &P, const I &b, const Matrix &X, double top, const I *) { scf_driver::fill_block_from_density<double>(0, o, f, P, b, X, top); }
VF_SECTION("density") {
  auto &g = c.rng; for (int it = 0; it < c.n(150, 3000); it++) {
    int np = g.integer(1, 6), n = 0; Blocks b, mir; std::vector<int> deg; bool mirror = g.coin(0.4); std::vector<int> size; for (int k = 0; k < np; k++) { int s = g.coin(0.1) ? 0 : g.integer(1, 7); size.push_back(s); bool pr = mirror && s && g.coin(0.6); deg.push_back(pr ? 2 : 1); n += s * deg.back(); } if (!n) continue;
    std::vector<Eigen::Index> all(n); for (int i = 0; i < n; i++) all[i] = i; for (int i = n - 1; i > 0; i--) std::swap(all[i], all[g.integer(0, i)]); int o = 0; for (int k = 0; k < np; k++) { Idx u(all.begin() + o, all.begin() + o + size[k]); o += size[k]; b.push_back(u); Idx v; if (deg[k] == 2) { v.assign(all.begin() + o, all.begin() + o + size[k]); o += size[k]; } mir.push_back(v); }
    bool restricted = g.coin(); c.m.begin(vf::fmt("density %d n=%d blocks=%d restricted=%d mirror=%d", it, n, np, restricted, mirror)); Matrix S = Matrix::Zero(n, n); ld cond = 1; for (int k = 0; k < np; k++) if (size[k]) { Met m = metric(g, size[k], size[k] == 1 ? 1 : g.loguniform(1, 1e4), 1); cond = std::max(cond, m.cond); for (int i = 0; i < size[k]; i++) for (int j = 0; j < size[k]; j++) { S(b[k][i], b[k][j]) = (double)m.S(i, j); if (deg[k] == 2) S(mir[k][i], mir[k][j]) = (double)m.S(i, j); } }
    auto X = scf_driver::build_per_block_Sinvh(S, b); ld tol = 50 * eps<double>() * (n + 2) * cond; size_t nt = restricted ? 1 : 2; OpenOrbitalOptimizer::Orbitals<double> orb(np * nt); OpenOrbitalOptimizer::OrbitalOccupations<double> occ(np * nt); std::vector<ld> count(nt, 0);
    for (size_t t = 0; t < nt; t++) for (int k = 0; k < np; k++) { Matrix q = size[k] ? Matrix(orth(g, size[k]).cast<double>()) : Matrix(0, 0); Vector f(size[k]); double top = (restricted ? 2 : 1) * deg[k]; for (int i = 0; i < size[k]; i++) { f(i) = g.coin(0.3) ? 0 : g.coin() ? top : g.uniform(0, top); count[t] += f(i); } orb[t * np + k] = q; occ[t * np + k] = f; }
    // block metadata
    OpenOrbitalOptimizer::IndexVector nb; Vector mo, npart; std::vector<std::string> lab, desc; for (int k = 0; k < np; k++) lab.push_back("k" + std::to_string(k)); int na = g.integer(0, 20), nbe = g.integer(0, 20); scf_driver::build_ooo_block_metadata<double>(np, nt, restricted, na + nbe, na, nbe, lab, deg, nb, mo, npart, desc);
    ld cap = 0; for (int t = 0; t < (int)nt; t++) for (int k = 0; k < np; k++) cap += mo(t * np + k) * size[k]; bool okm = nb.size() == (int)nt && npart.size() == (int)nt && mo.size() == (int)(np * nt) && desc.size() == np * nt && std::set<std::string>(desc.begin(), desc.end()).size() == desc.size(); for (size_t t = 0; t < nt; t++) okm &= nb(t) == np; c.m.require("metadata_shape", okm); c.m.require("metadata_capacity", cap == 2 * n, vf::fmt("%Lg places for %d functions", cap, n)); c.m.require("metadata_particles", npart.sum() == na + nbe && (restricted || npart(0) == na));
    c.m.require("metadata_mismatch_refused", !vf::thrown([&] { auto l2 = lab; l2.pop_back(); scf_driver::build_ooo_block_metadata<double>(np, nt, restricted, na + nbe, na, nbe, l2, deg, nb, mo, npart, desc); }).empty() && !vf::thrown([&] { auto d2 = deg; d2.push_back(1); scf_driver::build_ooo_block_metadata<double>(np, nt, restricted, na + nbe, na, nbe, lab, d2, nb, mo, npart, desc); }).empty());
    // accumulate: electron count, shape, Pauli bounds
    Matrix P[2] = {Matrix::Zero(n, n), Matrix::Zero(n, n)}; for (size_t t = 0; t < nt; t++) for (int k = 0; k < np; k++) scf_driver::accumulate_density_block<double>(P[t], b, k, X, orb[t * np + k], occ[t * np + k], mirror ? &mir[k] : nullptr);
    Vector dn = S.diagonal().cwiseSqrt(); Matrix Sn = dn.cwiseInverse().asDiagonal() * S * dn.cwiseInverse().asDiagonal(); for (size_t t = 0; t < nt; t++) { c.m.close("electrons", (P[t] * S).trace(), count[t], tol * (count[t] + 1)); c.m.small("density_symmetric", amax<double>(P[t] - P[t].transpose()), tol * (amax<double>(P[t]) + 1e-300L)); Matrix Sf = scf::form_Sinvh<double>(S, false).inverse(); Eigen::SelfAdjointEigenSolver<Matrix> es(Sf * P[t] * Sf.transpose(), Eigen::EigenvaluesOnly); double top = restricted ? 2 : 1; c.m.require("occupations_bounded", es.eigenvalues()(0) > -10 * (double)tol * n && es.eigenvalues()(n - 1) < top + 10 * (double)tol * n, vf::fmt("%g..%g", es.eigenvalues()(0), es.eigenvalues()(n - 1))); }
    auto fin = final_density(n, restricted, b, X, orb, occ, mirror ? mir : Blocks());
    if (restricted) { c.m.small("final_density", std::max(amax<double>(fin.first - P[0] / 2), amax<double>(fin.second - P[0] / 2)), tol * (amax<double>(P[0]) + 1e-300L)); } else c.m.small("final_density", std::max(amax<double>(fin.first - P[0]), amax<double>(fin.second - P[1])), tol * (amax<double>(P[0]) + amax<double>(P[1]) + 1e-300L));
    // reading a density back gives the same occupations, largest first
    for (size_t t = 0; t < nt; t++) { Matrix Pp = S * P[t] * S; for (int k = 0; k < np; k++) { Orbitals<double> o2(1); OrbitalOccupations<double> f2(1); double top = (restricted ? 2.0 : 1.0) * deg[k]; load_(0, o2, f2, Pp, b[k], size[k] ? X[k] : Matrix(), top, mirror ? &mir[k] : nullptr);
      if (!size[k]) { c.m.require("empty_block", o2[0].size() == 0 && f2[0].size() == 0); continue; }
      Vector want = occ[t * np + k]; std::sort(want.data(), want.data() + want.size(), std::greater<double>()); bool desc2 = true; for (int i = 1; i < size[k]; i++) desc2 &= f2[0](i) <= f2[0](i - 1); c.m.require("loaded_descending", desc2); c.m.small("loaded_occupations", amax<double>(f2[0] - want), 100 * tol * (top + 1)); c.m.small("loaded_orthonormal", amax<double>(Matrix(o2[0].transpose() * o2[0] - Matrix::Identity(size[k], size[k]))), 1e-12L); } }
    // orthonormal Fock blocks, magnetic splitting, exchange energy
    Matrix F = sym(g, n), H = sym(g, n), J = sym(g, n); OpenOrbitalOptimizer::FockMatrix<double> fk(np * nt); bool bf = g.coin(), xc = g.coin(), exx = g.coin(); double Bz = g.uniform(-1, 1); Matrix XCa = sym(g, n), XCb = sym(g, n), Ka = sym(g, n), Kb = sym(g, n); auto ob = [&](OpenOrbitalOptimizer::FockMatrix<double> &f, size_t i, const Matrix &A, size_t k) { scf_driver::orthonormalize_fock_block<double>(f, i, b, k, X, A); };
    scf_driver::assemble_fock_blocks<double>(fk, H, J, XCa, XCb, Ka, Kb, S, np, restricted, xc, exx, bf, Bz, ob); ld er = 0, es = 0; for (size_t t = 0; t < nt; t++) { Mat<ld> A = (H + J).cast<ld>(); if (xc) A += (t ? XCb : XCa).cast<ld>(); if (exx) A += (t ? Kb : Ka).cast<ld>(); if (!restricted && bf) A += ((t ? 0.5L : -0.5L) * (ld)Bz) * S.cast<ld>(); for (int k = 0; k < np; k++) { if (!size[k]) { c.m.require("fock_empty", fk[t * np + k].size() == 0); continue; } Mat<ld> x = X[k].cast<ld>(), r = x.transpose() * Mat<ld>(A(b[k], b[k])) * x; er = std::max(er, amax<ld>(Mat<ld>(r - fk[t * np + k].cast<ld>()))); es = std::max(es, amax<ld>(r) + amax<ld>(x) * amax<ld>(x) * amax<ld>(A)); } } c.m.small("fock_blocks", er, 1e-14L * n * n * (es + 1e-300L));
    auto exf = [&](const Matrix &D) { return Matrix(-(D + 2 * D.trace() * S)); }; Matrix k1, k2; double e1 = 0, e2 = 0; Matrix Pa = restricted ? Matrix(P[0] / 2) : P[0], Pb = restricted ? Pa : P[1]; scf_driver::assemble_hf_exchange(k1, k2, e1, Pa, Pb, restricted, true, exf); Matrix k3, k4; scf_driver::assemble_hf_exchange(k3, k4, e2, Pa, Pb, false, true, exf); c.m.close("exchange_energy", e1, e2, 1e-12L * (std::fabs(e2) + 1e-300L)); ld ex = 0.5L * (ld)((Pa.cast<ld>() * exf(Pa).cast<ld>()).trace() + (Pb.cast<ld>() * exf(Pb).cast<ld>()).trace()); c.m.close("exchange_value", e2, ex, 1e-12L * (std::fabs(ex) + 1e-300L)); double e3 = 5; scf_driver::assemble_hf_exchange(k3, k4, e3, Pa, Pb, false, false, exf); c.m.require("no_exchange", e3 == 0);
    // core Hamiltonian with spin splitting
    auto c0 = scf_driver::build_coreH_from_H0<double>(H, S, b, X, nt, false, Bz), c1 = scf_driver::build_coreH_from_H0<double>(H, S, b, X, nt, true, Bz); ld zz = 0; for (size_t t = 0; t < nt; t++) for (int k = 0; k < np; k++) if (size[k]) { Matrix d = c1[t * np + k] - c0[t * np + k], w = Matrix::Identity(size[k], size[k]) * (restricted ? 0.0 : (t ? 0.5 : -0.5) * Bz); zz = std::max(zz, amax<double>(d - w) / (1 + amax<double>(c0[t * np + k]))); } c.m.small("zeeman_splitting", zz, tol * n);
  }
}
template <class T> static void text(vf::Ctx &c, const std::string &f) {
  auto &g = c.rng; for (int k = 0; k < 40; k++) { T x = (T)rnd(g) * (T)g.loguniform(1e-290, 1e290); if (std::is_same<T, ld>::value || std::is_same<T, f128>::value) for (int j = g.integer(0, 9); j > 0; j--) x *= (T)1e250 * (T)1e200; if (k == 0) x = 0; if (k == 1) x = -(T)0; if (k == 2) x = std::numeric_limits<T>::max(); if (k == 3) x = std::numeric_limits<T>::min(); if (k == 4) x = std::numeric_limits<T>::denorm_min(); if (k == 5) x = -std::numeric_limits<T>::max(); if (x - x != 0) continue; std::string s = io::fmt_sci<T>(x); T y = 77; auto r = std::from_chars(s.data(), s.data() + s.size(), y); c.m.require(std::string("scientific_") + tn<T>(), r.ec == std::errc() && r.ptr == s.data() + s.size() && y == x && std::signbit((double)(x > 0 || x < 0 ? (x > 0 ? 1 : -1) : 0)) == std::signbit((double)(y > 0 || y < 0 ? (y > 0 ? 1 : -1) : 0)), s); }
  if constexpr (!std::is_same<T, f128>::value) { int r = g.integer(0, 9), k = g.integer(1, 9); Mat<T> m(r, k); for (int i = 0; i < m.size(); i++) m.data()[i] = (T)rnd(g) * (T)g.loguniform(1e-290, 1e290); io::write_raw_ascii<T>(f, m); std::ifstream in(f); std::string line; int i = 0; bool ok = true; while (std::getline(in, line)) { const char *p = line.c_str(); int j = 0; for (;;) { char *e; T v; if constexpr (sizeof(T) == 8) v = strtod(p, &e); else v = strtold(p, &e); if (e == p) break; ok &= i < r && j < k && v == m(i, j); j++; p = e; } ok &= j == k; i++; } c.m.require(std::string("dump_") + tn<T>(), ok && i == r); if (r) { Vec<T> v = m.col(0); io::write_raw_ascii<T>(f, v); std::ifstream i2(f); int nl = 0; while (std::getline(i2, line)) nl++; c.m.require("dump_vector", nl == r); }
    std::ostringstream os; auto *old = std::cout.rdbuf(os.rdbuf()); std::ios_base::fmtflags fl = std::cout.flags(); auto pr = std::cout.precision(); io::print_matrix<T>("name", m); bool kept = std::cout.flags() == fl && std::cout.precision() == pr; std::cout.rdbuf(old); c.m.require("print_state_kept", kept); std::istringstream is(os.str()); std::getline(is, line); ok = line == "name"; for (int i = 0; i < r; i++) for (int j = 0; j < k; j++) { std::string w; is >> w; T v; if constexpr (sizeof(T) == 8) v = strtod(w.c_str(), nullptr); else v = strtold(w.c_str(), nullptr); ok &= v == m(i, j); } c.m.require("print_values", ok); }
}
template <class T> static void perm(vf::Ctx &c) {
  auto &g = c.rng; size_t a = g.integer(1, 5), b = g.integer(1, 5), k = g.integer(1, 5), l = g.integer(1, 5); Mat<T> m(a * b, k * l); for (int i = 0; i < m.size(); i++) m.data()[i] = (T)rnd(g); Mat<T> e = utils::exchange_tei<T>(m, a, b, k, l); bool ok = e.rows() == (int)(b * k) && e.cols() == (int)(a * l); for (size_t i = 0; ok && i < a; i++) for (size_t j = 0; j < b; j++) for (size_t x = 0; x < k; x++) for (size_t y = 0; y < l; y++) ok &= e(x * b + j, y * a + i) == m(j * a + i, y * k + x); c.m.require(std::string("exchange_order_") + tn<T>(), ok); c.m.require("exchange_shape_refused", !vf::thrown([&] { utils::exchange_tei<T>(m, a + 1, b, k, l); }).empty() && !vf::thrown([&] { utils::exchange_tei<T>(m, a, b, k, l + 1); }).empty());
}
VF_SECTION("utilities") {
  auto &g = c.rng; std::string f = c.scratch + "/m.txt"; for (int it = 0; it < c.n(60, 1500); it++) {
    c.m.begin(vf::fmt("utilities %d", it)); text<double>(c, f); text<ld>(c, f); text<f128>(c, f); perm<double>(c); perm<ld>(c); perm<f128>(c);
    // integer tables
    int r = g.integer(0, 6), k = g.integer(1, 6); Eigen::MatrixXi M(r, k); { std::ofstream o(f); for (int i = 0; i < r; i++) { if (g.coin(0.2)) o << (g.coin() ? "\n" : "  \t\n"); for (int j = 0; j < k; j++) { M(i, j) = g.coin(0.1) ? INT32_MIN : (int)(g.next() >> g.integer(33, 60)); o << (g.coin() ? " " : "\t") << M(i, j); } if (i + 1 < r || g.coin()) o << "\n"; } } Eigen::MatrixXi R; std::string t = vf::thrown([&] { R = io::read_raw_ascii_imat(f); }); c.m.require("table_read", t.empty() && R.rows() == r && (r == 0 || (R.cols() == k && R == M)), t); if (r > 1) { std::ofstream(f, std::ios::app) << "\n1 2 3 4 5 6 7 8 9\n"; c.m.require("ragged_refused", !vf::thrown([&] { io::read_raw_ascii_imat(f); }).empty()); } c.m.require("missing_refused", !vf::thrown([&] { io::read_raw_ascii_imat(f + ".none"); }).empty());
    double x = g.coin(0.3) ? 1 + g.loguniform(1e-15, 1) : g.loguniform(1, 1e100); ld w = std::acosh((ld)x); c.m.close("arcosh", utils::arcosh(x), w, 4 * eps<double>() * w); if (g.coin(0.1)) c.m.require("arcosh_clamped", utils::arcosh(1 - 1e-15) == 0 && utils::arcosh(1) == 0);
    std::string a, b; for (int i = g.integer(0, 8); i > 0; i--) { char ch = (char)g.integer(33, 126); a += ch; b += g.coin() ? (char)toupper(ch) : (char)tolower(ch); } c.m.require("case_insensitive", utils::stricmp(a, b) == 0 && utils::stricmp(a + "x", b) != 0 && utils::stricmp(a + "a", b + "B") < 0);
  }
}
VF_MAIN
