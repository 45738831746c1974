#include <ceres/jet.h>
#include "geom.h"
#include <rct_optimizations/ceres_math_utilities.h>
#include <rct_image_tools/image_utils.h>
using namespace geom;
using namespace rct_optimizations;

static Vector3d anyPoint(Case& c)
{
  const double s = c.pick({ 1.0, 1e-3, 50.0 });
  const int k = c.i(0, 4);
  double z = 0;
  switch (k)
  {
    case 0:
      z = c.r(0.1, 10);
      c.label("z:front");
      break;
    case 1:
      z = -c.r(0.1, 10);
      c.label("z:behind");
      break;
    case 2:
      z = c.logr(1e-6, 0.1);
      c.label("z:smallFront");
      break;
    case 3:
      z = -c.logr(1e-6, 0.1);
      c.label("z:smallBehind");
      break;
    default:
      z = c.b() ? c.r(10, 1e4) : -c.r(10, 1e4);
      c.label("z:far");
  }
  return Vector3d(c.r(-5, 5) * s, c.r(-5, 5) * s, z * s);
}
static double tolFor(const CameraIntrinsics& k, const Vector3d& p)
{
  return 1e-9 * (1 + std::abs(k.fx() * p.x() / p.z()) + std::abs(k.fy() * p.y() / p.z()) + std::abs(k.cx()) + std::abs(k.cy()));
}
static CameraIntrinsics intr(Case& c)
{
  CameraIntrinsics k = anyIntr(c);
  if (c.b(1, 4))
  {
    k.fx() = c.r(1, 100);
    k.fy() = c.r(1, 100);
    k.cx() = c.r(-100, 100);
    k.cy() = c.r(-100, 100);
  }
  return k;
}

PBT(C02, project_all_paths, "point with non-zero depth through every projection path; x,y non-zero", 1500000, 15000000)
{
  const CameraIntrinsics k = intr(c);
  const Vector3d p = anyPoint(c);
  c.note("fx,fy,cx,cy", Eigen::Map<const Eigen::RowVector4d>(k.values.data()));
  c.note("point", p.transpose());
  c.nontrivial(p.x() != 0 && p.y() != 0);
  const Vector2d e = refProject(k, p);
  const double tol = tolFor(k, p);
  double uv[2];
  projectPoint(k, p.data(), uv);
  c.near(uv[0], e.x(), tol, "array projection u");
  c.near(uv[1], e.y(), tol, "array projection v");
  const Vector2d w = projectPoint<double>(k, p);
  c.near(w.x(), e.x(), tol, "vector projection u");
  c.near(w.y(), e.y(), tol, "vector projection v");
  // derivatives
  using J = ceres::Jet<double, 3>;
  J pj[3] = { J(p.x(), 0), J(p.y(), 1), J(p.z(), 2) }, uj[2];
  projectPoint(k, pj, uj);
  Eigen::Matrix<J, 3, 1> pv(pj[0], pj[1], pj[2]);
  const Eigen::Matrix<J, 2, 1> uw = projectPoint<J>(k, pv);
  Eigen::Matrix<double, 2, 3> D;
  D << k.fx() / p.z(), 0, -k.fx() * p.x() / (p.z() * p.z()), 0, k.fy() / p.z(), -k.fy() * p.y() / (p.z() * p.z());
  for (int a = 0; a < 2; ++a)
  {
    c.near(uj[a].a, e[a], tol, "autodiff array projection");
    c.near(uw[a].a, e[a], tol, "autodiff vector projection");
    for (int d = 0; d < 3; ++d)
    {
      const double dt = 1e-9 * (1 + D.row(a).cwiseAbs().maxCoeff());
      c.near(uj[a].v[d], D(a, d), dt, "derivative of array projection");
      c.near(uw[a].v[d], D(a, d), dt, "derivative of vector projection");
    }
  }
}

PBT(C02, zero_depth, "point with exactly zero depth; x or y non-zero", 100000, 1000000)
{
  const CameraIntrinsics k = intr(c);
  Vector3d p = anyPoint(c);
  p.z() = c.b() ? 0.0 : -0.0;
  c.note("point", p.transpose());
  c.nontrivial(p.head<2>().norm() > 0);
  double uv[2];
  projectPoint(k, p.data(), uv);
  c.check(std::isfinite(uv[0]) && std::isfinite(uv[1]), "array projection of a zero-depth point is not finite");
  const Vector2d w = projectPoint<double>(k, p);
  c.check(w.allFinite(), "vector projection of a zero-depth point is not finite");
  const double tol = 1e-9 * (1 + std::abs(uv[0]) + std::abs(uv[1]));
  c.near(w.x(), uv[0], tol, "projection paths disagree at zero depth (u)");
  c.near(w.y(), uv[1], tol, "projection paths disagree at zero depth (v)");
}

PBT(C02, reprojections, "set of target points reprojected through a pose; at least two points", 500000, 6000000)
{
  const CameraIntrinsics k = intr(c);
  const Isometry3d T = anyIso(c, 3.0, "pose");
  const int n = c.i(0, 12);
  std::vector<Vector3d> pts;
  for (int q = 0; q < n; ++q)
  {
    // choose the point in the camera frame, so that its depth is known
    pts.push_back(T.inverse() * anyPoint(c));
  }
  c.note("pose", str(T));
  c.note("n", n);
  c.nontrivial(n >= 2);
  const std::vector<cv::Point2d> out = rct_image_tools::getReprojections(T, k, pts);
  c.check(out.size() == pts.size(), "number of reprojections differs from number of points");
  for (int q = 0; q < n; ++q)
  {
    const Vector3d pc = T.linear() * pts[q] + T.translation();
    const Vector2d e = refProject(k, pc);
    // rounding of the transform is amplified by 1/z
    const double amp = 1e-12 * (pts[q].norm() + T.translation().norm() + 1) / std::abs(pc.z());
    const double tol = tolFor(k, pc) + amp * (std::abs(k.fx()) + std::abs(k.fy())) * (1 + std::abs(pc.x() / pc.z()) + std::abs(pc.y() / pc.z()));
    c.near(out[q].x, e.x(), tol, "reprojection u");
    c.near(out[q].y, e.y(), tol, "reprojection v");
  }
}
