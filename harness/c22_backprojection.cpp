// C22: line-plane intersection, back-projection onto the target plane, 3D projection error.
#include "geom.h"
#include <rct_optimizations/validation/projection.h>
using namespace geom;
using namespace rct_optimizations;

PBT(C22, intersection, "lines that are not parallel to the plane", 20000, 400000)
{
  const Vector3d n = dir(c), l = dir(c), p = vec(c, c.logr(1e-2, 1e2)), q = vec(c, c.logr(1e-2, 1e2));
  double s = n.dot(l);
  const bool own = c.b();
  const double eps = own ? c.logr(1e-9, 0.3) : 1e-6;
  Vector3d line = l;
  if (c.b(1, 4))
  {
    // almost or exactly parallel
    line = l - n * s;
    if (line.norm() < 1e-3)
      c.discard();
    line.normalize();
    const double t = (c.b() ? 1 : -1) * (c.b() ? eps * c.pick({ 0.5, 0.9, 1.1, 2.0 }) : 0.0);
    line = (line * std::sqrt(1 - t * t) + n * t).normalized();
    s = n.dot(line);
  }
  if (std::abs(std::abs(s) - eps) < 1e-3 * eps + 1e-14)
    c.discard();
  const bool parallel = std::abs(s) < eps;
  c.note("normal", n.transpose());
  c.note("line", line.transpose());
  c.note("epsilon", eps);
  c.label(parallel ? "parallel" : "intersects");
  c.nontrivial(!parallel);
  Vector3d x;
  try
  {
    x = own ? computeLinePlaneIntersection(n, p, line, q, eps) : computeLinePlaneIntersection(n, p, line, q);
  }
  catch (const std::exception&)
  {
    c.check(parallel, "a line that is not parallel was refused");
    return;
  }
  c.check(!parallel, "a parallel line was accepted");
  const double size = p.norm() + q.norm() + (x - q).norm() + 1e-6;
  c.near((x - p).dot(n), 0, 1e-10 * size, "distance of the intersection from the plane");
  c.near((x - q).cross(line).norm(), 0, 1e-10 * size, "distance of the intersection from the line");
}

namespace
{
// a target plane in front of the camera (or anywhere, not seen edge-on)
Isometry3d planePose(Case& c)
{
  for (int k = 0; k < 20; ++k)
  {
    Isometry3d p = anyIso(c, c.logr(0.1, 10), "plane");
    if (c.b(3, 4))
      p.translation().z() = std::abs(p.translation().z()) + 0.2;
    if (std::abs(p.linear().col(2).dot(p.translation())) > 0.05 * (p.translation().norm() + 1e-3))
      return p;
  }
  c.discard();
}
// points of the plane whose line of sight is not close to parallel to it
bool steep(const Isometry3d& p, const Vector3d& x)
{
  const Vector3d q = p * x;
  return q.norm() > 1e-3 && std::abs(q.z()) > 0.05 * q.norm() && std::abs(q.normalized().dot(p.linear().col(2))) > 0.02;
}
}  // namespace

PBT(C22, backprojection, "at least two image points", 8000, 200000)
{
  const Isometry3d p = planePose(c);
  const CameraIntrinsics k = anyIntr(c);
  Matrix3d m;
  m << k.fx(), 0, k.cx(), 0, k.fy(), k.cy(), 0, 0, 1;
  const bool skew = c.b(1, 4);
  if (skew)
    m(0, 1) = c.r(-50, 50);
  const double reach = c.logr(0.05, 2);
  std::vector<Vector3d> x;
  for (int n = c.i(0, 12); n > 0; --n)
  {
    const Vector3d a(c.r(-reach, reach), c.r(-reach, reach), 0);
    if (steep(p, a))
      x.push_back(a);
  }
  c.note("plane", str(p));
  c.note("points", x.size());
  c.nontrivial(x.size() > 1);
  Eigen::MatrixX2d uv(x.size(), 2);
  for (std::size_t i = 0; i < x.size(); ++i)
  {
    const Vector3d q = m * (p * x[i]);
    uv.row(long(i)) = (q.head<2>() / q.z()).transpose();
  }
  const Eigen::MatrixX3d got = project3D(uv, p, m);
  c.check(got.rows() == long(x.size()), "one point per image point");
  const double tol = 1e-8 * (p.translation().norm() + reach) / (0.02 * 0.05);
  for (std::size_t i = 0; i < x.size(); ++i)
    c.le((got.row(long(i)).transpose() - x[i]).norm(), tol, "distance of back-projected point " + std::to_string(i) + " from its origin");
}

namespace
{
struct Look
{
  Observation2D3D obs;
  std::vector<double> want;
};
struct Setup
{
  CameraIntrinsics k;
  Isometry3d cam, tgt;
  double tol;
};
// An observation whose image features are the images of target features displaced by known amounts
Look look(Case& c, const Setup& s, bool perfect)
{
  Look l;
  // camera mount such that the target is in front of the camera
  const Isometry3d p = planePose(c);
  l.obs.to_target_mount = c.b() ? anyIso(c) : Isometry3d::Identity();
  const Isometry3d target = l.obs.to_target_mount * s.tgt;
  l.obs.to_camera_mount = target * p.inverse() * s.cam.inverse();
  for (int n = c.i(0, 9); n > 0; --n)
  {
    const Vector3d x(c.r(-1, 1), c.r(-1, 1), 0);
    if (!steep(p, x))
      continue;
    Vector3d f = x;
    if (!perfect && c.b())
    {
      // the target feature is elsewhere (also off the plane) than where the image shows it
      f += vec(c, c.logr(1e-3, 1));
    }
    const Vector3d q = p * x;
    l.obs.correspondence_set.emplace_back(Vector2d(s.k.fx() * q.x() / q.z() + s.k.cx(), s.k.fy() * q.y() / q.z() + s.k.cy()), f);
    l.want.push_back((f - x).norm());
  }
  return l;
}
Setup setup(Case& c)
{
  Setup s;
  s.k = anyIntr(c);
  s.cam = c.b() ? anyIso(c, 1) : Isometry3d::Identity();
  s.tgt = c.b() ? anyIso(c, 1) : Isometry3d::Identity();
  s.tol = 1e-8 * 30 / (0.02 * 0.05);
  return s;
}
void compare(Case& c, const Eigen::ArrayXd& e, const std::vector<double>& want, double tol)
{
  c.check(e.size() == long(want.size()), std::to_string(e.size()) + " errors for " + std::to_string(want.size()) + " correspondences");
  for (std::size_t i = 0; i < want.size(); ++i)
    c.near(e(long(i)), want[i], tol * (1 + want[i]), "error of correspondence " + std::to_string(i));
}
}  // namespace

PBT(C22, error, "observations of displaced target features", 8000, 200000)
{
  const Setup s = setup(c);
  const bool perfect = c.b(1, 3);
  const Look l = look(c, s, perfect);
  c.note("camera mount", str(l.obs.to_camera_mount));
  c.note("correspondences", l.want.size());
  c.label(perfect ? "perfect" : "imperfect");
  c.nontrivial(!perfect && !l.want.empty());
  compare(c, compute3DProjectionError(l.obs, s.k, s.cam, s.tgt), l.want, s.tol);
}

PBT(C22, error_set, "sets of at least two observations", 5000, 120000)
{
  const Setup s = setup(c);
  Observation2D3D::Set all;
  std::vector<double> want;
  for (int n = c.i(0, 6); n > 0; --n)
  {
    const Look l = look(c, s, c.b(1, 4));
    all.push_back(l.obs);
    want.insert(want.end(), l.want.begin(), l.want.end());
  }
  c.note("observations", all.size());
  c.note("correspondences", want.size());
  c.nontrivial(all.size() > 1 && !want.empty());
  compare(c, compute3DProjectionError(all, s.k, s.cam, s.tgt), want, s.tol);
}
