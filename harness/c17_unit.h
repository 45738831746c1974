#pragma once
#include <ceres/ceres.h>
#include <rct_optimizations/dh_chain_kinematic_calibration.h>
namespace c17
{
// EigenQuaternionPlus: value and derivatives by the step (4 x 3, column-major)
void quaternionPlus(const double* x, const double* step, double* out, double* jacobian);
void subset(ceres::Problem& p, const std::map<const double*, std::vector<int>>& m);
ceres::CostFunction* prior(const Eigen::ArrayXXd& mean, const Eigen::ArrayXXd& stdev);
ceres::CostFunction* cost2d(const Eigen::Vector2d& px, const Eigen::Vector3d& pt, const rct_optimizations::CameraIntrinsics& k,
                            const rct_optimizations::DHChain& a, const rct_optimizations::DHChain& b,
                            const Eigen::VectorXd& qa, const Eigen::VectorXd& qb);
ceres::CostFunction* cost6d(const rct_optimizations::KinematicMeasurement& m, const rct_optimizations::DHChain& a,
                            const rct_optimizations::DHChain& b, double w);
}  // namespace c17
