// Shared generators and independent reference computations for the calibration checks.
#pragma once
#include "pbt.h"
#include <Eigen/Dense>
#include <functional>
#include <iomanip>
#include <rct_optimizations/types.h>

namespace geom
{
using Eigen::Isometry3d;
using Eigen::Matrix3d;
using Eigen::MatrixXd;
using Eigen::Vector2d;
using Eigen::Vector3d;
using Eigen::VectorXd;
using rct_optimizations::CameraIntrinsics;
using rct_optimizations::Correspondence2D3D;
using rct_optimizations::Correspondence3D3D;
using pbt::Case;
using Vec6 = Eigen::Matrix<double, 6, 1>;

inline Matrix3d skew(const Vector3d& v)
{
  Matrix3d m;
  m << 0, -v.z(), v.y(), v.z(), 0, -v.x(), -v.y(), v.x(), 0;
  return m;
}
// Independent exponential map (Rodrigues with series for small angles), no use of Eigen::AngleAxis
inline Matrix3d expSO3(const Vector3d& w)
{
  const double t2 = w.squaredNorm(), t = std::sqrt(t2);
  double a, b;
  if (t < 1e-4)
  {
    a = 1.0 - t2 / 6.0 + t2 * t2 / 120.0;
    b = 0.5 - t2 / 24.0 + t2 * t2 / 720.0;
  }
  else
  {
    a = std::sin(t) / t;
    b = (1.0 - std::cos(t)) / t2;
  }
  const Matrix3d k = skew(w);
  return Matrix3d::Identity() + a * k + b * k * k;
}
inline Isometry3d iso(const Matrix3d& r, const Vector3d& t)
{
  Isometry3d p = Isometry3d::Identity();
  p.linear() = r;
  p.translation() = t;
  return p;
}
inline double rotAngle(const Matrix3d& r)
{
  // accurate at 0 and pi
  const Vector3d v(r(2, 1) - r(1, 2), r(0, 2) - r(2, 0), r(1, 0) - r(0, 1));
  return std::atan2(v.norm(), r.trace() - 1.0);
}
inline double rotDiff(const Isometry3d& a, const Isometry3d& b) { return rotAngle(a.linear().transpose() * b.linear()); }
inline double transDiff(const Isometry3d& a, const Isometry3d& b) { return (a.translation() - b.translation()).norm(); }
inline double orthoErr(const Matrix3d& r)
{
  return std::max((r * r.transpose() - Matrix3d::Identity()).cwiseAbs().maxCoeff(), std::abs(r.determinant() - 1.0));
}

inline Vector3d dir(Case& c)
{
  // simplest: +z
  const double z = 1.0 - 2.0 * c.u(), a = 2 * M_PI * c.u();
  const double s = std::sqrt(std::max(0.0, 1 - z * z));
  return Vector3d(s * std::cos(a), s * std::sin(a), z);
}
inline Vector3d vec(Case& c, double m) { return Vector3d(c.r(-m, m), c.r(-m, m), c.r(-m, m)); }
// arbitrary rotation: general, none, tiny, about an axis, quarter turns, (nearly) pi
inline Matrix3d anyRot(Case& c, const std::string& what = "")
{
  static const char* names[] = { "rot0", "rotGeneral", "rotAxis", "rotQuarter", "rotTiny", "rotNearPi", "rotPi" };
  int k = c.i(0, 9);
  if (k > 6)
    k = 1;
  if (!what.empty())
    c.label(what + ":" + names[k]);
  switch (k)
  {
    case 0:
      return Matrix3d::Identity();
    case 1:
      return expSO3(dir(c) * c.r(0, M_PI));
    case 2:
    {
      Vector3d a = Vector3d::Zero();
      a[c.i(0, 2)] = 1;
      return expSO3(a * c.r(-M_PI, M_PI));
    }
    case 3:
    {
      Vector3d a = Vector3d::Zero();
      a[c.i(0, 2)] = 1;
      Matrix3d r = expSO3(a * (M_PI / 2 * c.i(0, 3)));
      for (int i = 0; i < 9; ++i)
        r(i) = std::round(r(i));
      return r;
    }
    case 4:
      return expSO3(dir(c) * c.logr(1e-12, 1e-2));
    case 5:
      return expSO3(dir(c) * (M_PI - c.logr(1e-12, 1e-2)));
    default:
      return expSO3(dir(c) * M_PI);
  }
}
inline Isometry3d anyIso(Case& c, double m = 2.0, const std::string& what = "")
{
  Matrix3d r = anyRot(c, what);
  return iso(r, vec(c, m));
}
inline Isometry3d perturb(Case& c, const Isometry3d& p, double rmax, double tmax)
{
  const Vector3d w = dir(c) * c.r(0, rmax);
  const Vector3d t = dir(c) * c.r(0, tmax);
  return iso(p.linear() * expSO3(w), p.translation() + t);
}
inline CameraIntrinsics anyIntr(Case& c)
{
  CameraIntrinsics k;
  k.fx() = c.r(400, 2500);
  k.fy() = k.fx() * c.r(0.8, 1.25);
  k.cx() = c.r(200, 1200);
  k.cy() = c.r(200, 900);
  return k;
}
inline Vector2d refProject(const CameraIntrinsics& k, const Vector3d& p)
{
  return Vector2d(k.values[0] * (p.x() / p.z()) + k.values[2], k.values[1] * (p.y() / p.z()) + k.values[3]);
}

// A target: point set with radius about its centroid; origin not necessarily at the centre
struct Target
{
  std::vector<Vector3d> pts;
  double size = 1;  // half extent
  Vector3d centre = Vector3d::Zero();
  bool planar = true;
};
inline Target anyTarget(Case& c, int minPts = 6, int maxSide = 7)
{
  Target t;
  const int kind = c.i(0, 3);
  const double sz = c.pick({ 0.2, 0.05, 0.5, 1.0 });
  if (kind <= 1)
  {
    const int rows = c.i(3, maxSide), cols = c.i(3, maxSide);
    const double s = 2 * sz / std::max(rows, cols);
    for (int r = 0; r < rows; ++r)
      for (int k = 0; k < cols; ++k)
        t.pts.push_back(Vector3d(k * s, (rows - 1 - r) * s, 0));
    c.label("target:grid");
  }
  else
  {
    const int n = c.i(minPts, maxSide * maxSide);
    t.planar = kind == 2;
    // spread over the square in strata so the geometry is never degenerate
    const int side = static_cast<int>(std::ceil(std::sqrt(double(n))));
    for (int k = 0; k < n; ++k)
    {
      const int ix = k % side, iy = k / side;
      const double x = (ix + 0.1 + 0.8 * c.u()) / side, y = (iy + 0.1 + 0.8 * c.u()) / side;
      double z = t.planar ? 0.0 : c.r(-0.5, 0.5);
      t.pts.push_back(Vector3d(2 * sz * x, 2 * sz * y, 2 * sz * z));
    }
    c.label(t.planar ? "target:planar" : "target:volume");
  }
  for (auto& p : t.pts)
    t.centre += p / double(t.pts.size());
  t.size = sz;
  return t;
}
// Camera looking at the target: tilt up to maxTilt (rad), any roll, distance in multiples of the target size.
inline Isometry3d lookAt(Case& c, const Target& t, double maxTilt = 0.9, double dmin = 3.0, double dmax = 8.0,
                         double minTilt = 0.0)
{
  const double tilt = minTilt + (maxTilt - minTilt) * c.u(), az = 2 * M_PI * c.u(), roll = 2 * M_PI * c.u();
  const double d = t.size * c.r(dmin, dmax);
  // camera z axis looks along -n (towards the front side, +z of the target)
  Matrix3d flip;
  flip << 1, 0, 0, 0, -1, 0, 0, 0, -1;
  const Matrix3d rt = expSO3(Vector3d(std::cos(az), std::sin(az), 0) * tilt) * expSO3(Vector3d(0, 0, roll));
  const Matrix3d r = flip * rt;  // camera <- target
  const Vector3d off(c.r(-0.2, 0.2) * t.size, c.r(-0.2, 0.2) * t.size, d);
  return iso(r, off - r * t.centre);
}

// --- independent nonlinear least squares machinery on products of SE(3) -------------------------------------------
using Poses = std::vector<Isometry3d>;
using ResidualFn = std::function<VectorXd(const Poses&)>;
inline Isometry3d plus(const Isometry3d& p, const Vec6& d)
{
  return iso(expSO3(d.head<3>()) * p.linear(), p.translation() + d.tail<3>());
}
double cost(const ResidualFn& f, const Poses& p);
MatrixXd numJac(const ResidualFn& f, const Poses& p, double hr = 1e-6, double ht = 1e-6);
// cost decrease that one Gauss-Newton step predicts (0 at a stationary point); columns are scaled, rank revealed
// An iterative solver may stop short when a step happens to leave the cost the same. That does not repeat with a slightly
// different guess: only what fails with every one of three guesses is a failure. f is given 0, 1, 2.
template <class F>
void confirmed(F f)
{
  for (int k = 0; k < 2; ++k)
    try
    {
      f(k);
      return;
    }
    catch (const pbt::Fail&)
    {
    }
  f(2);
}
inline Isometry3d nudged(const Isometry3d& p, int k, double len)
{
  return k == 0 ? p : iso(p.linear() * expSO3(Vector3d(0.3, -0.5, 0.8) * (1e-3 * k)), p.translation() + Vector3d(-0.6, 0.7, 0.2) * (1e-3 * k * len));
}
// by how much the cost can be reduced from there: 0 or the prediction of one step if that is below the floor, otherwise
// what an independent solver achieves (far from linear the prediction alone says nothing)
double decrease(const ResidualFn& f, const Poses& p, double floor, double ht = 1e-6);
double gnDecrement(const ResidualFn& f, const Poses& p, double ht = 1e-6, VectorXd* step = nullptr);
// Levenberg-Marquardt with numerical Jacobians
double refLM(const ResidualFn& f, Poses& p, int iters = 30);
// ratio of extreme singular values of J with columns scaled to unit length
double scaledCond(const MatrixXd& J);
// pseudo inverse of J^T J
MatrixXd invInfo(const MatrixXd& J);
// closed-form best rigid transform b ~ T a
Isometry3d kabsch(const std::vector<Vector3d>& a, const std::vector<Vector3d>& b);

inline std::string str(const Isometry3d& p)
{
  std::ostringstream o;
  Eigen::Quaterniond q(p.linear());
  o << std::setprecision(9) << "[t " << p.translation().transpose() << " q(wxyz) " << q.w() << " " << q.vec().transpose()
    << "]";
  return o.str();
}
inline void samePose(Case& c, const Isometry3d& a, const Isometry3d& b, double rtol, double ttol, const std::string& what)
{
  if (!(rotDiff(a, b) <= rtol) || !(transDiff(a, b) <= ttol))
  {
    std::ostringstream o;
    o << what << ": pose " << str(a) << " differs from " << str(b) << " by " << rotDiff(a, b) << " rad, "
      << transDiff(a, b) << " m (tol " << rtol << ", " << ttol << ")";
    c.fail(o.str());
  }
}
inline void properRot(Case& c, const Isometry3d& a, const std::string& what)
{
  if (!(orthoErr(a.linear()) <= 1e-9))
    c.fail(what + ": linear part is not a proper rotation");
  Eigen::Matrix<double, 1, 4> last(0, 0, 0, 1);
  if (!(a.matrix().row(3) - last).isZero(0))
    c.fail(what + ": last row is not 0 0 0 1");
}
}  // namespace geom
