// Stand-in for the container types of OpenOrbitalOptimizer, which is not installed here.
#pragma once
#include <Eigen/Core>
#include <string>
#include <vector>
namespace OpenOrbitalOptimizer {
template <class T> using Orbitals = std::vector<Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>>;
template <class T> using OrbitalOccupations = std::vector<Eigen::Matrix<T, Eigen::Dynamic, 1>>;
template <class T> using FockMatrix = std::vector<Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>>;
typedef Eigen::VectorXi IndexVector;
}
