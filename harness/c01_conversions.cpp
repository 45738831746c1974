#include <ceres/jet.h>
#include "geom.h"
#include <rct_optimizations/ceres_math_utilities.h>
#include <rct_optimizations/eigen_conversions.h>
using namespace geom;
using namespace rct_optimizations;

static double mag(Case& c) { return c.pick({ 1.0, 1e-3, 10.0, 1e3, 1e6 }); }

PBT(C01, iso_roundtrip, "isometry -> 6-vector -> isometry; rotation regime is not the identity", 700000, 12000000)
{
  const Matrix3d r = anyRot(c, "in");
  const double m = mag(c);
  const Vector3d t = vec(c, m);
  const Isometry3d p = iso(r, t);
  c.note("pose", str(p));
  c.nontrivial(rotAngle(r) > 0);
  const Pose6d v = poseEigenToCal(p);
  c.check(v.x() == t.x() && v.y() == t.y() && v.z() == t.z(), "translation changed by conversion to 6-vector");
  c.check(v.values[3] == t.x() && v.values[4] == t.y() && v.values[5] == t.z(), "6-vector layout is not (rotation, translation)");
  const Vector3d w(v.rx(), v.ry(), v.rz());
  c.le(w.norm(), M_PI + 1e-9, "angle-axis of a rotation is longer than pi");
  c.near((expSO3(w) - r).cwiseAbs().maxCoeff(), 0, 1e-11, "rotation of 6-vector differs from the transform's rotation");
  const Isometry3d q = poseCalToEigen(v);
  properRot(c, q, "round trip");
  c.near((q.linear() - r).cwiseAbs().maxCoeff(), 0, 1e-11, "rotation changed by the round trip");
  c.check((q.translation() - t).isZero(0), "translation changed by the round trip");
}

PBT(C01, vec_roundtrip, "6-vector -> isometry; non-zero rotation vector", 700000, 12000000)
{
  const int k = c.i(0, 6);
  Vector3d w = Vector3d::Zero();
  static const char* nm[] = { "zero", "general", "tiny", "subnormal", "axis", "beyondPi", "nearPi" };
  c.label(std::string("vec:") + nm[k]);
  switch (k)
  {
    case 1:
      w = dir(c) * c.r(0, M_PI);
      break;
    case 2:
      w = dir(c) * c.logr(1e-14, 1e-3);
      break;
    case 3:
      w = dir(c) * c.logr(1e-300, 1e-12);
      break;
    case 4:
      w[c.i(0, 2)] = c.r(-M_PI, M_PI);
      break;
    case 5:
      w = dir(c) * c.r(M_PI, 20);
      break;
    case 6:
      w = dir(c) * (M_PI + c.pick({ 0.0, 1e-9, -1e-9, 1e-6, -1e-6 }));
      break;
    default:;
  }
  const Vector3d t = vec(c, mag(c));
  Pose6d v(std::array<double, 6>{ w.x(), w.y(), w.z(), t.x(), t.y(), t.z() });
  c.note("w", w.transpose());
  c.note("t", t.transpose());
  c.nontrivial(k != 0);
  const Isometry3d p = poseCalToEigen(v);
  properRot(c, p, "from 6-vector");
  c.near((p.linear() - expSO3(w)).cwiseAbs().maxCoeff(), 0, 1e-11, "rotation is not the exponential of the angle-axis part");
  c.check((p.translation() - t).isZero(0), "translation changed");
  const Pose6d b = poseEigenToCal(p);
  const Vector3d wb(b.rx(), b.ry(), b.rz());
  c.near((expSO3(wb) - expSO3(w)).cwiseAbs().maxCoeff(), 0, 1e-11, "rotation changed by the round trip");
  if (w.norm() < M_PI - 1e-3)
    c.near((wb - w).norm(), 0, 1e-10 + 1e-9 * w.norm(), "angle-axis below pi changed by the round trip");
  c.check(b.x() == t.x() && b.y() == t.y() && b.z() == t.z(), "translation changed by the round trip");
}

PBT(C01, point_transform, "pose applied to a point by 6-vector and by isometry; rotation and point non-zero", 700000, 12000000)
{
  const Matrix3d r = anyRot(c, "in");
  const double m = c.pick({ 1.0, 1e-3, 100.0 });
  const Isometry3d p = iso(r, vec(c, m));
  const Vector3d x = vec(c, m);
  c.note("pose", str(p));
  c.note("x", x.transpose());
  c.nontrivial(rotAngle(r) > 0 && x.norm() > 0);
  const Pose6d v = poseEigenToCal(p);
  double out[3], in[3] = { x.x(), x.y(), x.z() };
  poseTransformPoint(v, in, out);
  const Vector3d e = p * x;
  const double tol = 1e-10 * m;
  c.near((Vector3d(out[0], out[1], out[2]) - e).norm(), 0, tol, "poseTransformPoint differs from the isometry");
  double aa[3] = { v.rx(), v.ry(), v.rz() }, tx[3] = { v.x(), v.y(), v.z() }, o2[3];
  transformPoint(aa, tx, in, o2);
  c.near((Vector3d(o2[0], o2[1], o2[2]) - e).norm(), 0, tol, "transformPoint differs from the isometry");
  c.near((poseCalToEigen(v) * x - e).norm(), 0, tol, "converted pose transforms the point differently");
  // through automatic differentiation
  using J = ceres::Jet<double, 3>;
  J pj[3] = { J(x.x(), 0), J(x.y(), 1), J(x.z(), 2) }, oj[3];
  poseTransformPoint(v, pj, oj);
  for (int k = 0; k < 3; ++k)
  {
    c.near(oj[k].a, e[k], tol, "autodiff value");
    for (int d = 0; d < 3; ++d)
      c.near(oj[k].v[d], r(k, d), 1e-10, "autodiff derivative of the transformed point");
  }
}
