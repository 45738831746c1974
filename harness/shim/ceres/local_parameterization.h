// Lets the sources written for Ceres < 2.2 compile against the installed Ceres 2.2: the classes they use exist there
// under new names.  ceres::IsNaN gets back the meaning it had before Ceres 2.1 (true if any derivative is NaN).
#pragma once
#include <ceres/ceres.h>
namespace ceres
{
using LocalParameterization = Manifold;
using SubsetParameterization = SubsetManifold;
inline bool rctShimIsNaN(double x) { return std::isnan(x); }
template <typename T, int N>
inline bool rctShimIsNaN(const Jet<T, N>& f)
{
  if (std::isnan(f.a))
    return true;
  for (int i = 0; i < N; ++i)
    if (std::isnan(f.v[i]))
      return true;
  return false;
}
}  // namespace ceres
#define SetParameterization SetManifold
#define IsNaN rctShimIsNaN
