// Stand-in for sadatom/scf.cpp, whose solver (OpenOrbitalOptimizer) is not installed here:
// returns hydrogen-like orbitals of the bare nucleus instead of a converged atom.
#include <sadatom/scf.h>
#include <Eigen/Eigenvalues>
namespace helfem { namespace sadatom { namespace scf {
AtomicSCFResult run_atomic_scf(const AtomicSCFOptions &o) {
  AtomicSCFResult r; r.basis = sadatom::basis::TwoDBasis(o.Z, o.finitenuc, o.Rrms, o.poly, o.zeroder, o.Nquad, o.bval, o.lmax);
  Matrix X = r.basis.Sinvh(), T = r.basis.kinetic(), Tl = r.basis.kinetic_l(), V = r.basis.nuclear();
  r.occs_a = Eigen::VectorXi::Zero(o.lmax + 1);
  for (int l = 0; l <= o.lmax; l++) {
    Matrix H = X.transpose() * (T + l * (l + 1) * Tl + V) * X;
    Eigen::SelfAdjointEigenSolver<Matrix> es((H + H.transpose()) / 2);
    r.orbs_a.push_back(X * es.eigenvectors());
    if (l < o.fixed_per_l_a.size()) r.occs_a(l) = (int)o.fixed_per_l_a(l);
  }
  return r;
}
}}}
