// P09: angular coupling coefficients
#include "util.h"
#include <gaunt.h>
using namespace helfem; using ref::q;
// int Y*_{lj mj} w(cos) Y_{li mi} (m equal) for a polynomial weight of degree deg
static q weighted(int lj, int mj, int li, int mi, int deg, std::function<q(q)> w) {
  if (mj != mi || std::abs(mj) > lj || std::abs(mi) > li) return 0;
  const auto &g = ref::gauss((lj + li + deg) / 2 + 2); q s = 0;
  for (size_t i = 0; i < g.first.size(); i++) s += g.second[i] * w(g.first[i]) * ref::theta(lj, mj, g.first[i]) * ref::theta(li, mi, g.first[i]);
  return s;
}
static q modref(int lj, int mj, int L, int M, int li, int mi) {
  if (mj != M + mi || std::abs(mj) > lj || std::abs(M) > L || std::abs(mi) > li) return 0;
  const auto &g = ref::gauss((lj + L + li + 2) / 2 + 2); q s = 0;
  for (size_t i = 0; i < g.first.size(); i++) { q x = g.first[i]; s += g.second[i] * x * x * ref::theta(lj, mj, x) * ref::theta(L, M, x) * ref::theta(li, mi, x); }
  return s / sqrtq(2 * M_PIq);
}
template <class T> void close(vf::Ctx &c, const std::string &key, T got, q want, long double n, const std::string &ex) { c.m.small(key + "." + Name<T>::n, (long double)(((q)got - want) / (q)std::numeric_limits<T>::epsilon()), std::is_same_v<T, _Float128> ? 40 * n : n, ex); }   // the quad reference itself carries ~10 eps
template <class T> void table(vf::Ctx &c, int lcap) {
  auto &g = c.rng;
  int Lm = g.integer(0, lcap), lm = g.integer(0, lcap), lpm = g.integer(0, lcap), cap = g.coin(0.4) ? -1 : g.integer(0, std::max(1, lcap / 2));
  c.m.begin(vf::fmt("table T=%s Lmax=%d lmax=%d lpmax=%d mcap=%d", Name<T>::n, Lm, lm, lpm, cap));
  gaunt::GauntT<T> G(Lm, lm, lpm, cap);
  int win = cap < 0 ? 1 << 20 : std::min(cap, std::max({Lm, lm, lpm}));
  int nref = 0, nthrow = 0;
  auto probe = [&](int L, int M, int l, int m, int lp) {
    std::string ex = vf::fmt("L=%d M=%d l=%d m=%d lp=%d", L, M, l, m, lp); T v = T(0);
    std::string t = vf::thrown([&] { v = G.coeff(L, M, l, m, lp); });
    bool inl = L >= 0 && L <= Lm && l >= 0 && l <= lm && lp >= 0 && lp <= lpm;
    if (!inl) { c.m.require("gaunt.outside_l_range_is_zero", t.empty() && v == T(0), ex + " " + t); return; }
    if (std::abs(M) > L || std::abs(m) > l) { c.m.require("gaunt.no_such_harmonic_is_zero", t.empty() && v == T(0), ex + " " + t); return; }
    if (std::abs(M) > win || std::abs(m) > win) { nthrow++; c.m.require("gaunt.outside_window_refused", !t.empty(), ex); return; }
    if (!c.m.require("gaunt.inside_window_answered", t.empty(), ex + " " + t)) return;
    nref++;
    close<T>(c, "gaunt.coeff", v, ref::gaunt(L, M, l, m, lp, M - m), 8, ex);
    // the free function agrees and the selection rules are exact zeros
    T f = gaunt::gaunt_coefficient_T<T>(L, M, l, m, lp, M - m);
    c.m.require("gaunt.table_equals_direct", v == f || std::abs(v - f) <= 16 * std::numeric_limits<T>::epsilon(), ex);
    if ((L + l + lp) % 2 || lp < std::abs(L - l) || lp > L + l || std::abs(M - m) > lp) c.m.require("gaunt.selection_rules", v == T(0), ex);
  };
  if (lcap <= 6) { for (int L = -1; L <= Lm + 1; L++) for (int M = -L - 1; M <= L + 1; M++) for (int l = -1; l <= lm + 1; l++) for (int m = -l - 1; m <= l + 1; m++) for (int lp = -1; lp <= lpm + 1; lp++) probe(L, M, l, m, lp); }
  else for (int k = 0; k < 400; k++) { int L = g.integer(0, Lm), l = g.integer(0, lm); int w = std::min(win, 40) + 1; int M = g.integer(-std::min(L, w), std::min(L, w)), m = g.integer(-std::min(l, w), std::min(l, w)); int lo = std::abs(L - l), hi = std::min(L + l, lpm); int lp = hi >= lo && g.coin(0.8) ? g.integer(lo, hi) : g.integer(0, lpm); probe(L, M, l, m, lp); }
  c.m.event("coefficients_compared", nref); c.m.event("refusals", nthrow);
}
VF_SECTION("table_small") { for (int i = 0; i < c.n(24, 200); i++) { table<double>(c, 4); table<long double>(c, 3); table<_Float128>(c, 3); } }
VF_SECTION("table_medium") { for (int i = 0; i < c.n(6, 60); i++) { table<double>(c, 6); } }
VF_SECTION("table_large") { for (int i = 0; i < c.n(20, 200); i++) { table<double>(c, 24); table<_Float128>(c, 14); } }

template <class T> void couplings(vf::Ctx &c) {
  auto &g = c.rng; int lmax = g.integer(1, 9), cap = g.coin() ? -1 : g.integer(0, lmax);
  c.m.begin(vf::fmt("couplings T=%s lmax=%d mcap=%d", Name<T>::n, lmax, cap));
  gaunt::GauntT<T> G(lmax + 2, std::max(lmax, 5), lmax + 2, cap);      // covers every weight up to cos^5
  int w = cap < 0 ? lmax : std::min(cap, lmax);
  for (int k = 0; k < 120; k++) {
    int lj = g.integer(0, lmax), li = g.integer(0, lmax), mj = g.integer(-std::min(lj, w), std::min(lj, w)), mi = g.coin(0.8) ? mj : g.integer(-std::min(li, w), std::min(li, w));
    if (std::abs(mi) > li) mi = 0;
    std::string ex = vf::fmt("lj=%d mj=%d li=%d mi=%d", lj, mj, li, mi);
    close<T>(c, "cpl.cos", G.cosine_coupling(lj, mj, li, mi), weighted(lj, mj, li, mi, 1, [](q x) { return x; }), 16, ex);
    close<T>(c, "cpl.cos2", G.cosine2_coupling(lj, mj, li, mi), weighted(lj, mj, li, mi, 2, [](q x) { return x * x; }), 16, ex);
    close<T>(c, "cpl.cos3", G.cosine3_coupling(lj, mj, li, mi), weighted(lj, mj, li, mi, 3, [](q x) { return x * x * x; }), 16, ex);
    close<T>(c, "cpl.cos4", G.cosine4_coupling(lj, mj, li, mi), weighted(lj, mj, li, mi, 4, [](q x) { return x * x * x * x; }), 16, ex);
    close<T>(c, "cpl.cos5", G.cosine5_coupling(lj, mj, li, mi), weighted(lj, mj, li, mi, 5, [](q x) { return x * x * x * x * x; }), 16, ex);
    close<T>(c, "cpl.sin2", G.sine2_coupling(lj, mj, li, mi), weighted(lj, mj, li, mi, 2, [](q x) { return 1 - x * x; }), 16, ex);
    close<T>(c, "cpl.cos2sin2", G.cosine2_sine2_coupling(lj, mj, li, mi), weighted(lj, mj, li, mi, 4, [](q x) { return x * x * (1 - x * x); }), 16, ex);
    c.m.require("cpl.exchange_symmetry", G.cosine3_coupling(lj, mj, li, mi) == G.cosine3_coupling(li, mi, lj, mj) || std::abs(G.cosine3_coupling(lj, mj, li, mi) - G.cosine3_coupling(li, mi, lj, mj)) <= 64 * std::numeric_limits<T>::epsilon(), ex);
    // cos^2-weighted three-function integral
    int li2 = g.integer(0, lmax), mi2 = g.integer(-std::min(li2, w), std::min(li2, w));
    int M = g.coin(0.85) ? mj - mi2 : g.integer(-2, 2); int L = g.integer(0, lmax);
    if (std::abs(M) > L || std::abs(M) > w) continue;
    std::string e2 = ex + vf::fmt(" L=%d M=%d li=%d mi=%d", L, M, li2, mi2);
    gaunt::GauntT<T> *Gp = &G; static thread_local std::map<int, gaunt::GauntT<T>> big; (void)Gp;
    auto it = big.find(w * 100 + lmax); if (it == big.end()) it = big.emplace(w * 100 + lmax, gaunt::GauntT<T>(lmax + 2, std::max(lmax, 2), lmax + 2, w)).first;
    close<T>(c, "cpl.mod_table", it->second.mod_coeff(lj, mj, L, M, li2, mi2), modref(lj, mj, L, M, li2, mi2), 24, e2);
    if (M == mj - mi2) c.m.small("cpl.mod_direct", (long double)((q)gaunt::modified_gaunt_coefficient(lj, mj, L, M, li2, mi2) - modref(lj, mj, L, M, li2, mi2)), 24 * 2.2e-16L, e2);
  }
}
VF_SECTION("couplings") { for (int i = 0; i < c.n(40, 400); i++) { couplings<double>(c); couplings<long double>(c); if (i % 2 == 0) couplings<_Float128>(c); } }

VF_SECTION("direct") {
  auto &g = c.rng;
  for (int i = 0; i < c.n(3000, 30000); i++) {
    int L = g.integer(0, 20), l = g.integer(0, 20), lp = g.coin(0.8) ? g.integer(std::abs(L - l), std::min(L + l, 36)) : g.integer(0, 20), M = g.integer(-L, L), m = g.integer(-l, l), mp = g.coin(0.9) ? M - m : g.integer(-lp, lp);
    if (std::abs(mp) > lp) mp = 0;
    c.m.begin(vf::fmt("gaunt L=%d M=%d l=%d m=%d lp=%d mp=%d", L, M, l, m, lp, mp));
    q r = ref::gaunt(L, M, l, m, lp, mp);
    c.m.small("gaunt.direct", (long double)((q)gaunt::gaunt_coefficient(L, M, l, m, lp, mp) - r), 1e-15L);
    c.m.small("gaunt.direct_long", (long double)((q)gaunt::gaunt_coefficient_T<long double>(L, M, l, m, lp, mp) - r), 1e-18L);
    c.m.small("gaunt.direct_quad", (long double)((q)gaunt::gaunt_coefficient_T<_Float128>(L, M, l, m, lp, mp) - r), 1e-31L);
  }
}
VF_MAIN
