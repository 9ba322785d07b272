// Gaunt integrals by exact Gauss-Legendre quadrature in quad precision; the
// selection rules are applied exactly, as the real library does.
#include "wignernj.hpp"
#include "wignernj_quadmath.h"
#include "ref.h"
#include <cstdlib>
namespace {
const int N = 64, LT = 44;
struct Tab {
  std::vector<__float128> t;  // [l][m>=0][i]
  Tab() : t((size_t)(LT + 1) * (LT + 1) * N) {
    for (int l = 0; l <= LT; l++) for (int m = 0; m <= l; m++) for (int i = 0; i < N; i++)
      t[((size_t)l * (LT + 1) + m) * N + i] = ref::theta(l, m, ref::gauss(N).first[i]);
  }
};
const Tab &tab() { static const Tab t; return t; }
}
__float128 gaunt_q(int tl1, int tm1, int tl2, int tm2, int tl3, int tm3) {
  int l[3] = {tl1 / 2, tl2 / 2, tl3 / 2}, m[3] = {tm1 / 2, tm2 / 2, tm3 / 2};
  if (m[0] + m[1] + m[2] || ((l[0] + l[1] + l[2]) & 1)) return 0;
  for (int i = 0; i < 3; i++) {
    if (std::abs(m[i]) > l[i]) return 0;
    if (l[i] > l[(i + 1) % 3] + l[(i + 2) % 3]) return 0;
  }
  __float128 s = 0;
  int lm = std::max(l[0], std::max(l[1], l[2]));
  if (lm <= LT && l[0] + l[1] + l[2] < 2 * N) {
    const auto &t = tab().t; const auto &w = ref::gauss(N).second;
    const __float128 *p[3]; int sg = 0;
    for (int i = 0; i < 3; i++) { p[i] = &t[((size_t)l[i] * (LT + 1) + std::abs(m[i])) * N]; if (m[i] < 0) sg += m[i]; }
    for (int i = 0; i < N / 2; i++) s += w[i] * p[0][i] * p[1][i] * p[2][i];
    s *= 2;  // the integrand is even: l1+l2+l3 is even and m1+m2+m3=0
    if (sg & 1) s = -s;
  } else s = ref::integrate([&](__float128 x) { return ref::theta(l[0], m[0], x) * ref::theta(l[1], m[1], x) * ref::theta(l[2], m[2], x); }, -1, 1, (l[0] + l[1] + l[2]) / 2 + 2);
  return s / sqrtq(2 * M_PIq);
}
namespace wignernj {
template <typename T> T gaunt(int a, int b, int c, int d, int e, int f) { return (T)::gaunt_q(a, b, c, d, e, f); }
template double gaunt<double>(int, int, int, int, int, int);
template long double gaunt<long double>(int, int, int, int, int, int);
}
