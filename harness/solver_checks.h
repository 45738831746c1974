// Checks shared by C04..C08: recovery of noise-free scenes and optimality on noisy ones.
#pragma once
#include "scene.h"
namespace scene
{
inline void shape(Case& c, const Scene& s, const Out& o)
{
  c.check(o.poses.size() == s.truth.size(), "number of returned transforms differs from the number of unknowns");
  for (auto& p : o.poses)
    properRot(c, p, "returned transform");
  if (s.kind == MSCW)
  {
    c.check(o.group.size() == s.camPose.size(), "number of returned cameras differs from the number given");
    for (std::size_t k = 1; k < o.group.size(); ++k)
    {
      const Isometry3d a = o.group[0].inverse() * o.group[k], b = s.camPose[0].inverse() * s.camPose[k];
      const double sc = 1 + b.translation().norm() + s.camPose[k].translation().norm() + o.group[k].translation().norm();
      samePose(c, a, b, 1e-9, 1e-9 * sc, "relative pose of cameras 0 and " + std::to_string(k));
    }
  }
  if (s.kind == MSCO && s.fixFirst)
    samePose(c, o.poses[0], s.guess[0], 1e-9, 1e-9 * (1 + s.guess[0].translation().norm()), "fixed first camera");
}
// camera <- target transforms of all views: gauge independent comparison
inline void sameViews(Case& c, const Scene& s, const Poses& a, const Poses& b, double rt, double tt)
{
  for (auto& v : s.views)
  {
    if (v.corr.empty() && s.kind != MSCO)
      continue;
    const Vector3d o = Vector3d::Zero();
    Isometry3d A, B;
    const Vector3d x0 = inCamera(s, a, v, o), y0 = inCamera(s, b, v, o);
    A = iso((Matrix3d() << inCamera(s, a, v, Vector3d::UnitX()) - x0, inCamera(s, a, v, Vector3d::UnitY()) - x0,
             inCamera(s, a, v, Vector3d::UnitZ()) - x0).finished(), x0);
    B = iso((Matrix3d() << inCamera(s, b, v, Vector3d::UnitX()) - y0, inCamera(s, b, v, Vector3d::UnitY()) - y0,
             inCamera(s, b, v, Vector3d::UnitZ()) - y0).finished(), y0);
    samePose(c, A, B, rt, tt, "camera-to-target transform of a view");
  }
}
inline double condOf(const Scene& s)
{
  return scaledCond(numJac(freeFn(s, s.truth), freeOf(s, s.truth), 1e-6, 1e-6 * s.len));
}
inline bool gaugeFree(const Scene& s) { return s.kind == MSCO && !s.fixFirst; }

inline void recover(Case& c, Kind k, double condMax, GenOpt o = GenOpt())
{
  o.exactGuess = true;
  const Scene s = gen(c, k, o);
  describe(c, s);
  if (!gaugeFree(s) && condOf(s) > condMax)
  {
    c.label("illConditioned");
    c.discard();
  }
  c.nontrivial(c.labels.count("guess:exact") == 0);
  const Out r = solve(s);
  shape(c, s, r);
  c.check(r.converged, "did not converge on noise-free data with a guess near the truth");
  const double unit = s.is3D() ? s.len * s.len : 1.0;
  c.near(r.c1, 0, 1e-8 * unit, "final cost per observation on noise-free data");
  const double rt = 2e-5, tt = 2e-5 * s.len;
  sameViews(c, s, r.poses, s.truth, s.is3D() ? 5e-4 : 1e-4, (s.is3D() ? 5e-4 : 1e-4) * s.len);
  if (!gaugeFree(s))
    for (std::size_t q = 0; q < s.truth.size(); ++q)
    {
      const double lever = 1 + s.truth[q].translation().norm() / s.len;
      samePose(c, r.poses[q], s.truth[q], (s.is3D() ? 50 : 1) * rt * 5, (s.is3D() ? 50 : 1) * tt * lever * 5, "recovered transform " + std::to_string(q));
    }
  if (s.kind == MSCW)
    for (std::size_t q = 0; q < r.group.size(); ++q)
      samePose(c, r.group[q], s.truth[0] * s.camPose[q], rt * 5, tt * 20, "recovered camera " + std::to_string(q));
}

inline void optimal(Case& c, Kind k, double condMax)
{
  GenOpt o;
  o.noise = c.pick({ 0.5, 0.05, 2.0 });
  o.outlier = true;
  o.exactGuess = true;
  o.maxViews = 6;
  const Scene s0 = gen(c, k, o);
  describe(c, s0);
  c.note("noise", o.noise);
  c.nontrivial();
  confirmed([&](int attempt) {
  const Scene s = nudge(s0, attempt);
  const Out r = solve(s);
  shape(c, s, r);
  const double unit = s.is3D() ? s.len * s.len : 1.0;
  Poses all = s.guess;  // fixed poses stay at the guess
  auto fr = freePoses(s);
  for (std::size_t q = 0; q < all.size(); ++q)
    if (fr[q])
      all[q] = r.poses[q];
  const ResidualFn f = freeFn(s, s.guess);
  const double cg = cost(f, freeOf(s, s.guess)), cf = cost(f, freeOf(s, all));
  c.le(cf, cg * (1 + 1e-9) + 1e-12 * unit, "returned solution is worse than the guess");
  if (r.converged)
  {
    c.label("converged");
    const double floor = 3e-3 * cf + 1e-6 * unit;
    c.le(decrease(f, freeOf(s, all), floor, 1e-6 * s.len), floor,
         "returned solution is not a local optimum over all given correspondences (possible decrease)");
  }
  if (gaugeFree(s) || condOf(s) < condMax)
  {
    Poses ref = freeOf(s, s.truth);
    double cr = refLM(f, ref, 15);
    c.label("wellConditioned");
    // with a gross error there may be other optima beside it
    // the same optimum must be within reach of the guess
    if (cf > cr)
    {
      Poses near = freeOf(s, s.guess);
      cr = std::max(cr, refLM(f, near, 30));
    }
    c.le(cf, cr * (1 + (c.labels.count("large outlier") ? 0.1 : 2e-3)) + 1e-6 * unit, "an independent solver finds a better solution");
  }
  });
}
}  // namespace scene
