// The kinematic calibration of the repository, compiled through harness/shim (see there).
#include <ceres/ceres.h>
#include <iostream>
#include <ceres/local_parameterization.h>
#include <rct_optimizations/dh_chain_kinematic_calibration.cpp>
#include "c17_unit.h"

namespace c17
{
void quaternionPlus(const double* x, const double* step, double* out, double* jacobian)
{
  const rct_optimizations::EigenQuaternionPlus plus;
  plus(x, step, out);
  using J = ceres::Jet<double, 3>;
  const J jx[4] = { J(x[0]), J(x[1]), J(x[2]), J(x[3]) }, js[3] = { J(step[0], 0), J(step[1], 1), J(step[2], 2) };
  J jo[4];
  plus(jx, js, jo);
  for (int i = 0; i < 4; ++i)
    for (int k = 0; k < 3; ++k)
      jacobian[4 * k + i] = jo[i].v[k];
}
void subset(ceres::Problem& p, const std::map<const double*, std::vector<int>>& m)
{
  rct_optimizations::addSubsetParameterization(p, m);
}
ceres::CostFunction* prior(const Eigen::ArrayXXd& mean, const Eigen::ArrayXXd& stdev)
{
  auto* b = new ceres::DynamicAutoDiffCostFunction<rct_optimizations::MaximumLikelihood>(
      new rct_optimizations::MaximumLikelihood(mean, stdev));
  b->AddParameterBlock(int(mean.size()));
  b->SetNumResiduals(int(mean.size()));
  return b;
}
template <class Cost>
static ceres::CostFunction* dual(Cost* f, int camSize, int tgtSize, int residuals)
{
  auto* b = new ceres::DynamicAutoDiffCostFunction<Cost>(f);
  b->AddParameterBlock(camSize);
  b->AddParameterBlock(tgtSize);
  for (int i = 0; i < 6; ++i)
    b->AddParameterBlock(3);
  b->SetNumResiduals(residuals);
  return b;
}
ceres::CostFunction* cost2d(const Eigen::Vector2d& px, const Eigen::Vector3d& pt, const rct_optimizations::CameraIntrinsics& k,
                            const rct_optimizations::DHChain& a, const rct_optimizations::DHChain& b,
                            const Eigen::VectorXd& qa, const Eigen::VectorXd& qb)
{
  return dual(new rct_optimizations::DualDHChainCost2D3D(px, pt, k, a, b, qa, qb), 4 * std::max<int>(1, int(a.dof())),
              4 * std::max<int>(1, int(b.dof())), 2);
}
ceres::CostFunction* cost6d(const rct_optimizations::KinematicMeasurement& m, const rct_optimizations::DHChain& a,
                            const rct_optimizations::DHChain& b, double w)
{
  return dual(new rct_optimizations::DualDHChainCostPose6D(m, a, b, w), 4 * std::max<int>(1, int(a.dof())),
              4 * std::max<int>(1, int(b.dof())), 4);
}
}  // namespace c17
