#include "geom.h"
#include <rct_optimizations/pnp.h>
using namespace geom;
using namespace rct_optimizations;

namespace
{
// sometimes with many points
Target anyTargetOrMany(Case& c)
{
  Target t = anyTarget(c);
  if (c.b(1, 24))
  {
    c.label("many points");
    const std::size_t n = t.pts.size();
    for (std::size_t q = std::size_t(c.i(60, 300)); q > 0; --q)
    {
      const double w = c.r(0, 1);
      const Vector3d a = t.pts[c.draw(n)], b = t.pts[c.draw(n)];
      t.pts.push_back(a * w + b * (1 - w));
    }
  }
  return t;
}
// correspondences given more than once count as often
template <class S>
void repeat(Case& c, S& s)
{
  if (!c.b(1, 8))
    return;
  c.label("repeated correspondences");
  for (int k = c.i(1, 1 + int(s.size()) / 6); k > 0; --k)
  {
    const auto at = c.draw(s.size());
    const auto x = s[at];
    s.insert(s.begin() + long(c.b() ? at : c.draw(s.size() + 1)), x);
  }
}
}  // namespace

static Isometry3d truePose(Case& c, const Target& t)
{
  const int k = c.i(0, 5);
  Isometry3d p = lookAt(c, t, 0.9);
  if (k == 1 || k == 2)
  {
    // special orientations: none at all, half turns (camera axes aligned with the target)
    Matrix3d r = Matrix3d::Identity();
    if (k == 2)
    {
      Vector3d a = Vector3d::Zero();
      a[c.i(0, 2)] = 1;
      r = expSO3(a * M_PI);
      for (int i = 0; i < 9; ++i)
        r(i) = std::round(r(i));
    }
    const Vector3d ctr = p * t.centre;
    p = iso(r, ctr - r * t.centre);
    c.label(k == 1 ? "true:noRotation" : "true:halfTurn");
  }
  else if (k == 3)
  {
    // seen from behind
    const Vector3d ctr = p * t.centre;
    Matrix3d r = p.linear() * expSO3(Vector3d(M_PI, 0, 0));
    p = iso(r, ctr - r * t.centre);
    c.label("true:behind");
  }
  return p;
}
static Isometry3d guessFor(Case& c, const Isometry3d& truth, double d)
{
  const int k = c.i(0, 4);
  if (k == 0)
  {
    c.label("guess:exact");
    return truth;
  }
  if (k == 1 && rotAngle(truth.linear()) < 0.25)
  {
    c.label("guess:noRotation");
    return iso(Matrix3d::Identity(), truth.translation() + dir(c) * c.r(0, 0.1 * d));
  }
  c.label("guess:perturbed");
  return perturb(c, truth, 0.25, 0.1 * d);
}
PBT(C03, recover2d, "noise-free view; guess different from the truth or without rotation", 24000, 400000)
{
  const Target t = anyTarget(c);
  const CameraIntrinsics k = anyIntr(c);
  const Isometry3d truth = truePose(c, t);
  const double d = (truth * t.centre).norm();
  PnPProblem p;
  p.intr = k;
  for (auto& x : t.pts)
  {
    const Vector3d q = truth * x;
    if (q.z() < 0.2 * d)
      c.discard();
    p.correspondences.push_back(Correspondence2D3D(refProject(k, q), x));
  }
  p.camera_to_target_guess = guessFor(c, truth, d);
  for (auto& x : t.pts)
    if ((p.camera_to_target_guess * x).z() < 0.2 * d)
      c.discard();
  c.note("truth", str(truth));
  c.note("guess", str(p.camera_to_target_guess));
  c.note("n", t.pts.size());
  c.note("size", t.size);
  c.nontrivial(c.labels.count("guess:exact") == 0 || rotAngle(truth.linear()) == 0);
  const PnPResult r = optimize(p);
  c.check(r.converged, "did not converge on noise-free data");
  properRot(c, r.camera_to_target, "result");
  c.near(r.final_cost_per_obs, 0, 1e-9, "final cost on noise-free data");
  samePose(c, r.camera_to_target, truth, 1e-5, 1e-5 * d, "camera_to_target");
}

PBT(C03, recover3d, "noise-free 3D data; guess different from the truth or without rotation", 40000, 600000)
{
  const Target t = anyTarget(c);
  const Isometry3d truth = c.b() ? truePose(c, t) : anyIso(c, 3.0, "true");
  const double d = truth.translation().norm() + t.size;
  PnPProblem3D p;
  for (auto& x : t.pts)
    p.correspondences.push_back(Correspondence3D3D(truth * x, x));
  p.camera_to_target_guess = guessFor(c, truth, d);
  c.note("truth", str(truth));
  c.note("guess", str(p.camera_to_target_guess));
  c.note("n", t.pts.size());
  c.nontrivial(c.labels.count("guess:exact") == 0 || rotAngle(truth.linear()) == 0);
  const PnPResult r = optimize(p);
  c.check(r.converged, "did not converge on noise-free data");
  properRot(c, r.camera_to_target, "result");
  c.near(r.final_cost_per_obs, 0, 1e-9 * d * d, "final cost on noise-free data");
  samePose(c, r.camera_to_target, truth, 1e-4, 1e-4 * d, "camera_to_target");
}

PBT(C03, noisy2d, "noisy view, possibly with gross outliers and uneven noise; noise non-zero", 6000, 100000)
{
  const Target t = anyTargetOrMany(c);
  const CameraIntrinsics k = anyIntr(c);
  const Isometry3d truth = truePose(c, t);
  const double d = (truth * t.centre).norm();
  PnPProblem p;
  p.intr = k;
  const double s = c.pick({ 0.5, 0.01, 2.0 });
  for (auto& x : t.pts)
  {
    const Vector3d q = truth * x;
    if (q.z() < 0.2 * d)
      c.discard();
    p.correspondences.push_back(Correspondence2D3D(refProject(k, q) + Vector2d(c.r(-s, s), c.r(-s, s)), x));
  }
  repeat(c, p.correspondences);
  // one outlier of moderate size: it must count like every other correspondence
  if (c.b(1, 3))
  {
    auto& o = p.correspondences[c.b(1, 3) ? p.correspondences.size() - 1 : c.draw(p.correspondences.size())];
    const double b = p.correspondences.size() > 19 && c.b() ? 60 : 15;
    o.in_image += Vector2d(c.r(-b, b), c.r(-b, b));
    c.label(b > 15 ? "large outlier" : "outlier");
  }
  p.camera_to_target_guess = guessFor(c, truth, d);
  for (auto& x : t.pts)
    if ((p.camera_to_target_guess * x).z() < 0.2 * d)
      c.discard();
  c.note("truth", str(truth));
  c.note("guess", str(p.camera_to_target_guess));
  c.note("n", t.pts.size());
  c.note("noise", s);
  c.nontrivial();
  ResidualFn f = [&](const Poses& ps) {
    VectorXd r(2 * p.correspondences.size());
    for (std::size_t q = 0; q < p.correspondences.size(); ++q)
      r.segment<2>(2 * q) = refProject(k, ps[0] * p.correspondences[q].in_target) - p.correspondences[q].in_image;
    return r;
  };
  const Isometry3d guess = p.camera_to_target_guess;
  confirmed([&](int attempt) {
  p.camera_to_target_guess = nudged(guess, attempt, d);
  const PnPResult r = optimize(p);
  properRot(c, r.camera_to_target, "result");
  const double cg = cost(f, { p.camera_to_target_guess }), cf = cost(f, { r.camera_to_target });
  c.le(cf, cg * (1 + 1e-9) + 1e-12, "returned pose is worse than the guess");
  Poses ref{ truth };
  const double cr = refLM(f, ref);
  if (r.converged)
  {
    c.label("converged");
    const double floor = (c.labels.count("large outlier") ? 1e-2 : 2e-3) * cf + 1e-9;
    c.le(decrease(f, { r.camera_to_target }, floor), floor, "returned pose is not a local optimum (possible decrease)");
  }
  // same basin: the independent solver cannot be better
  if (c.labels.count("large outlier") == 0 && rotDiff(ref[0], truth) < 0.1 && scaledCond(numJac(f, ref)) < 300)
  {
    c.label("wellConditioned");
    // from the guess as well: with noise a planar target may have two optima
    Poses near{ p.camera_to_target_guess };
    const double cn = cf > cr ? refLM(f, near, 30) : cr;
    c.le(cf, std::max(cr, cn) * (1 + 5e-3) + 1e-9, "an independent solver finds a better pose");
  }
  });
}

PBT(C03, noisy3d, "noisy 3D view; noise non-zero", 12000, 200000)
{
  const Target t = anyTargetOrMany(c);
  const Isometry3d truth = anyIso(c, 3.0, "true");
  const double d = truth.translation().norm() + t.size;
  PnPProblem3D p;
  const double s = t.size * c.pick({ 0.01, 0.001, 0.05 });
  for (auto& x : t.pts)
    p.correspondences.push_back(Correspondence3D3D(truth * x + vec(c, s), x));
  repeat(c, p.correspondences);
  if (c.b(1, 3))
  {
    p.correspondences[c.b(1, 3) ? p.correspondences.size() - 1 : c.draw(p.correspondences.size())].in_image += vec(c, (p.correspondences.size() > 30 ? 1.5 : p.correspondences.size() > 15 ? 0.5 : 0.3) * t.size);
    c.label("outlier");
  }
  p.camera_to_target_guess = guessFor(c, truth, d);
  c.note("truth", str(truth));
  c.note("guess", str(p.camera_to_target_guess));
  c.note("n", t.pts.size());
  c.note("noise", s);
  c.nontrivial();
  ResidualFn f = [&](const Poses& ps) {
    VectorXd r(3 * p.correspondences.size());
    for (std::size_t q = 0; q < p.correspondences.size(); ++q)
      r.segment<3>(3 * q) = ps[0] * p.correspondences[q].in_target - p.correspondences[q].in_image;
    return r;
  };
  const PnPResult r = optimize(p);
  properRot(c, r.camera_to_target, "result");
  // exact optimum by Kabsch/SVD
  std::vector<Vector3d> pa, pb;
  for (auto& x : p.correspondences)
  {
    pa.push_back(x.in_target);
    pb.push_back(x.in_image);
  }
  const Isometry3d best = kabsch(pa, pb);
  const double cf = cost(f, { r.camera_to_target }), cb2 = cost(f, { best });
  c.check(r.converged, "did not converge");
  c.le(cf, cb2 * (1 + 1e-3) + 1e-12 * t.size * t.size, "the closed-form optimum is better than the returned pose");
  c.le(cf, cost(f, { p.camera_to_target_guess }) * (1 + 1e-9) + 1e-15, "returned pose is worse than the guess");
}
