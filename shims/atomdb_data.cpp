// Stand-in for the generated table src/general/atomdb_data.cpp (not in the
// tree): same symbols and layout, filled at start-up with orthonormal
// Slater-type orbitals on a small Lagrange finite element basis.
#include "refe.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <vector>
namespace helfem { namespace atomdb { namespace data {
// not declared const here: same linkage names, filled before main
// VF_ATOMDB="nodes,elements" changes the size of the table
#define MAXORB (118 * 19)
#define MAXNE 24
#define MAXBF 200
extern int max_Z, lmax, Nbf, nelem, nnodes, primbas, nquad, norbital;
extern double bval[MAXNE + 1];
extern int norb[118][4], offset[118][4];
extern double occupations[MAXORB], coefficients[MAXORB * MAXBF];
int max_Z = 118, lmax = 3, Nbf, nelem, nnodes, primbas = 4, nquad, norbital = 0;
double bval[MAXNE + 1];
int norb[118][4], offset[118][4];
double occupations[MAXORB], coefficients[MAXORB * MAXBF];
} } }
namespace {
using namespace helfem::atomdb::data;
struct Fill {
  Fill() {
    typedef long double T;
    int NN = 9, NE = 9; if (const char *e = getenv("VF_ATOMDB")) sscanf(e, "%d,%d", &NN, &NE);
    if (NN < 3 || NE < 2 || NE > MAXNE || NE * (NN - 1) - 1 > MAXBF) abort();
    const int NBF = NE * (NN - 1) - 1; Nbf = NBF; nelem = NE; nnodes = NN; nquad = 5 * NN;
    for (int i = 0; i <= NE; i++) bval[i] = 40.0 * std::expm1(6.0 * i / NE) / std::expm1(6.0);
    bval[NE] = 40.0;
    // Gauss-Lobatto nodes by bisection on P'_{n-1}
    std::vector<T> x(NN); x[0] = -1; x[NN - 1] = 1;
    auto dp = [NN](T t) { int n = NN - 1; T a = 1, b = t; for (int k = 2; k <= n; k++) { T c = ((2 * k - 1) * t * b - (k - 1) * a) / k; a = b; b = c; } return n * (t * b - a) / (t * t - 1); };
    int found = 1;
    for (int i = 0; i < 2000; i++) {  // no sample falls on a node
      T a = -1 + 2 * (i + 0.5L) / 2000.7L, b = -1 + 2 * (i + 1.5L) / 2000.7L;
      if (dp(a) * dp(b) < 0) { for (int k = 0; k < 80; k++) { T m = (a + b) / 2; if (dp(a) * dp(m) <= 0) b = m; else a = m; } if (found < NN - 1) x[found++] = (a + b) / 2; }
    }
    // overlap of the Lagrange basis
    std::vector<T> S((size_t)NBF * NBF, 0);
    const auto &g = ref::gauss(NN + 2);
    for (int e = 0; e < NE; e++)
      for (int i = 0; i < NN + 2; i++) {
        T t = (T)g.first[i], w = (T)g.second[i] * (bval[e + 1] - bval[e]) / 2; std::vector<T> v(NN);
        for (int a = 0; a < NN; a++) { v[a] = 1; for (int b = 0; b < NN; b++) if (b != a) v[a] *= (t - x[b]) / (x[a] - x[b]); }
        for (int a = 0; a < NN; a++) for (int b = 0; b < NN; b++) {
          int ga = e * (NN - 1) + a - 1, gb = e * (NN - 1) + b - 1;
          if (ga >= 0 && gb >= 0 && ga < NBF && gb < NBF) S[(size_t)ga * NBF + gb] += w * v[a] * v[b];
        }
      }
    // aufbau order
    const int sh[19][2] = {{1,0},{2,0},{2,1},{3,0},{3,1},{4,0},{3,2},{4,1},{5,0},{4,2},{5,1},{6,0},{4,3},{5,2},{6,1},{7,0},{5,3},{6,2},{7,1}};
    for (int Z = 1; Z <= 118; Z++) {
      double occ[19]; double left = Z;
      for (int s = 0; s < 19; s++) { double m = 4 * sh[s][1] + 2; occ[s] = left < m ? left : m; left -= occ[s]; }
      // share some of the last shell with the next one: fractional occupations
      for (int s = 18; s > 0; s--) if (occ[s] > 0) { double d = 0.137 * occ[s]; if (s < 18) { occ[s] -= d; occ[s + 1] += d; } break; }
      if (Z == 1) { occ[0] = 0.94; occ[1] = 0.06; }
      for (int l = 0; l < 4; l++) {
        offset[Z - 1][l] = norbital; norb[Z - 1][l] = 0;
        std::vector<std::vector<T>> done;
        double inner = 0;
        for (int s = 0; s < 19; s++) {
          if (sh[s][1] != l || occ[s] <= 0) { inner += occ[s]; continue; }
          int n = sh[s][0];
          double zeta = (1 + (Z - 1) * std::exp(-0.9 * (n - 1)) * 0.9) / n * 1.1;
          if (zeta < 0.45) zeta = 0.45;
          if (zeta > 35) zeta = 35;
          std::vector<T> c(NBF);
          for (int e = 0; e < NE; e++) for (int a = 0; a < NN; a++) { int ga = e * (NN - 1) + a - 1; if (ga < 0 || ga >= NBF) continue; T r = (bval[e] + bval[e + 1]) / 2 + (bval[e + 1] - bval[e]) / 2 * x[a]; c[ga] = std::pow(r, (T)n) * std::exp(-zeta * r); }
          for (int pass = 0; pass < 3; pass++) {
            std::vector<T> Sc(NBF, 0);
            auto mul = [&] { for (int i = 0; i < NBF; i++) { Sc[i] = 0; for (int j = 0; j < NBF; j++) Sc[i] += S[(size_t)i * NBF + j] * c[j]; } };
            mul();
            for (auto &d : done) { T o = 0; for (int i = 0; i < NBF; i++) o += d[i] * Sc[i]; for (int i = 0; i < NBF; i++) c[i] -= o * d[i]; }
            mul();
            T nn = 0; for (int i = 0; i < NBF; i++) nn += c[i] * Sc[i];
            nn = std::sqrt(nn); for (auto &v : c) v /= nn;
          }
          done.push_back(c);
          for (int i = 0; i < NBF; i++) coefficients[(size_t)norbital * NBF + i] = (double)c[i];
          occupations[norbital++] = occ[s];
          norb[Z - 1][l]++;
          inner += occ[s];
        }
      }
    }
  }
};
__attribute__((init_priority(101))) Fill fill;
}
