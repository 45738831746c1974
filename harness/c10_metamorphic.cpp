#include "solver_checks.h"
#include <rct_optimizations/circle_fit.h>
using namespace scene;
// Two solutions of the same scene agree when they predict the same measurements: compared by the squared distance of the
// residual vectors in units of the cost, which does not depend on free gauges or on badly determined directions.
static void agree(Case& c, const Scene& s, const Out& a, const Out& b, const std::string& what, double rel = 5e-3)
{
  const double unit = s.is3D() ? s.len * s.len : 1.0;
  const double n = s.nRes();
  c.check(a.poses.size() == b.poses.size() && a.group.size() == b.group.size(), what + ": different number of results");
  const double d = 0.5 * (residualsOf(s, a) - residualsOf(s, b)).squaredNorm();
  c.le(d, rel * a.c1 * n + 1e-6 * unit, what + ": results differ (half squared distance of the predicted measurements)");
  c.near(b.c0, a.c0, 1e-6 * a.c0 + 1e-9 * unit, what + ": initial cost");
  c.near(b.c1, a.c1, rel * a.c1 + 1e-8 * unit, what + ": final cost");
}
static Scene start(Case& c, Out& r)
{
  GenOpt o;
  o.noise = c.pick({ 0.5, 0.0, 2.0 });
  o.exactGuess = true;
  o.maxViews = 5;
  const Scene s = gen(c, anyKind(c), o);
  describe(c, s);
  c.note("noise", o.noise);
  if (!gaugeFree(s) && condOf(s) > 1000)
    c.discard();
  r = solve(s);
  c.check(!r.modified, "the solver changed the problem it was given");
  c.check(r.converged, "did not converge");
  return s;
}
PBT(C10, order, "a permutation other than the identity was applied", 900, 30000)
{
  Out a;
  const Scene s = start(c, a);
  Scene p = s;
  const int what = c.i(1, 7);
  // correspondences inside the views
  if (what & 1)
    for (auto& v : p.views)
    {
      const auto q = c.perm(v.corr.size());
      for (std::size_t k = 0; k < q.size(); ++k)
        if (q[k] != k)
          c.nontrivial();
      auto old = v.corr;
      for (std::size_t k = 0; k < q.size(); ++k)
        v.corr[k] = old[q[k]];
    }
  const bool targets = s.kind == MSCO || s.kind == MSCW;
  std::vector<std::size_t> cp, tp;
  for (int k = 0; k < s.nCams(); ++k)
    cp.push_back(k);
  for (int k = 0; k < s.nTargets; ++k)
    tp.push_back(k);
  if (what & 2)
  {
    if (targets)
      tp = c.perm(s.nTargets);
    else if (s.kind == HE2 || s.kind == HE3 || s.kind == MSC)
    {
      // images of the same camera
      const auto q = c.perm(p.views.size());
      auto old = p.views;
      for (std::size_t k = 0; k < q.size(); ++k)
      {
        p.views[k] = old[q[k]];
        if (q[k] != k)
          c.nontrivial();
      }
    }
  }
  if ((what & 4) && (s.kind == MSC || s.kind == MSCO || s.kind == MSCW || s.kind == MCP))
  {
    cp = c.perm(s.nCams());
    // a fixed first camera stays first
    if (s.kind == MSCO && s.fixFirst)
      std::swap(cp[0], *std::find(cp.begin(), cp.end(), 0u));
  }
  // cp[k] = which old camera is at place k
  std::vector<int> cn(cp.size()), tn(tp.size());
  for (std::size_t k = 0; k < cp.size(); ++k)
  {
    cn[cp[k]] = int(k);
    if (cp[k] != k)
      c.nontrivial();
  }
  for (std::size_t k = 0; k < tp.size(); ++k)
  {
    tn[tp[k]] = int(k);
    if (tp[k] != k)
      c.nontrivial();
  }
  for (auto& v : p.views)
  {
    if (s.intr.size() > 1)
      v.cam = cn[v.cam];
    if (targets)
      v.idx = tn[v.idx];
  }
  for (std::size_t k = 0; k < cp.size(); ++k)
  {
    p.intr[k] = s.intr[cp[k]];
    if (!s.camPose.empty())
      p.camPose[k] = s.camPose[cp[k]];
  }
  auto permute = [&](Poses& g, const Poses& from) {
    if (s.kind == MSC || s.kind == MSCO)
      for (std::size_t k = 0; k < cp.size(); ++k)
        g[k] = from[cp[k]];
    if (s.kind == MSCO)
      for (std::size_t k = 0; k < tp.size(); ++k)
        g[cp.size() + k] = from[cp.size() + tp[k]];
  };
  permute(p.guess, s.guess);
  permute(p.truth, s.truth);
  Out b = solve(p);
  c.check(b.poses.size() == a.poses.size() && b.group.size() == a.group.size(), "different number of results");
  // back to the order of s
  Out m = b;
  if (s.kind == MSC || s.kind == MSCO)
    for (std::size_t k = 0; k < cp.size(); ++k)
      m.poses[cp[k]] = b.poses[k];
  if (s.kind == MSCO)
    for (std::size_t k = 0; k < tp.size(); ++k)
      m.poses[cp.size() + tp[k]] = b.poses[cp.size() + k];
  for (std::size_t k = 0; k < b.group.size(); ++k)
    m.group[cp[k]] = b.group[k];
  agree(c, s, a, m, "after reordering");
}
PBT(C10, frames, "base, mount or target frames were changed", 900, 30000)
{
  Out a;
  const Scene s = start(c, a);
  Scene p = s;
  const int what = c.i(1, 7);
  const Isometry3d W = (what & 1) ? anyIso(c, 2 * s.len, "base") : Isometry3d::Identity();
  const Isometry3d M = (what & 2) ? anyIso(c, 0.3 * s.len, "mount") : Isometry3d::Identity();   // target mount
  const Isometry3d N = (what & 2) ? anyIso(c, 0.3 * s.len) : Isometry3d::Identity();            // camera mount
  const Isometry3d G = (what & 4) ? anyIso(c, 0.3 * s.len, "target") : Isometry3d::Identity();  // new target frame
  c.nontrivial();
  for (auto& v : p.views)
  {
    v.A = W * v.A * N;
    v.B = W * v.B * M;
    for (auto& q : v.corr)
      q.pt = G.inverse() * q.pt;
  }
  auto fwd = [&](const Poses& g) {
    Poses o = g;
    const int nc = s.nCams();
    switch (s.kind)
    {
      case PNP2:
      case PNP3:
        o[0] = g[0] * G;
        break;
      case HE2:
      case HE3:
        o[0] = N.inverse() * g[0];
        o[1] = M.inverse() * g[1] * G;
        break;
      case MSC:
        for (int k = 0; k < nc; ++k)
          o[k] = W * g[k];
        o[nc] = M.inverse() * g[nc] * G;
        break;
      case MSCO:
        for (std::size_t k = 0; k < g.size(); ++k)
          o[k] = W * g[k] * (int(k) < nc ? Isometry3d::Identity() : G);
        break;
      case MSCW:
        o[0] = W * g[0] * W.inverse();
        o[1] = M.inverse() * g[1] * G;
        break;
      default:
        o[0] = W * g[0] * G;
    }
    return o;
  };
  p.guess = fwd(s.guess);
  p.truth = fwd(s.truth);
  for (auto& q : p.camPose)
    q = W * q;
  if (s.kind == MSCW)
    p.guess[0].setIdentity();
  const Out b = solve(p);
  Out m = a;
  m.poses = fwd(a.poses);
  for (auto& q : m.group)
    q = W * q;
  agree(c, p, m, b, "after a change of frames");
}
PBT(C10, units, "all lengths multiplied by a factor", 700, 20000)
{
  Out a;
  const Scene s = start(c, a);
  const double f = c.b() ? c.logr(0.05, 1) : c.logr(1, 20);
  c.note("factor", f);
  c.nontrivial(std::abs(f - 1) > 1e-3);
  Scene p = s;
  p.len *= f;
  auto sc = [&](Poses& v) {
    for (auto& q : v)
      q.translation() *= f;
  };
  sc(p.guess);
  sc(p.truth);
  sc(p.camPose);
  for (auto& v : p.views)
  {
    v.A.translation() *= f;
    v.B.translation() *= f;
    for (auto& q : v.corr)
    {
      q.pt *= f;
      if (s.is3D())
        q.obs *= f;
    }
  }
  const Out b = solve(p);
  Out m = a;
  sc(m.poses);
  sc(m.group);
  if (s.is3D())
  {
    m.c0 *= f * f;
    m.c1 *= f * f;
  }
  agree(c, p, m, b, "after a change of units");
}
PBT(C10, repeat, "the problem was solved again after one to three other problems", 700, 20000)
{
  Out a;
  const Scene s = start(c, a);
  const int n = c.i(0, 3);
  c.nontrivial(n > 0);
  for (int k = 0; k < n; ++k)
  {
    GenOpt o;
    o.noise = 0.5;
    o.maxViews = 4;
    // often the same solver again
    const Scene q = gen(c, c.b() ? s.kind : anyKind(c), o);
    try
    {
      solve(q);
    }
    catch (const std::exception&)
    {
    }
  }
  const Out b = solve(s);
  const double unit = s.is3D() ? s.len * s.len : 1.0;
  c.check(a.converged == b.converged && a.poses.size() == b.poses.size(), "solving again gives another kind of result");
  for (std::size_t q = 0; q < a.poses.size(); ++q)
    samePose(c, a.poses[q], b.poses[q], 1e-7, 1e-7 * (s.len + a.poses[q].translation().norm()), "transform " + std::to_string(q) + " of the second call");
  for (std::size_t q = 0; q < a.group.size(); ++q)
    samePose(c, a.group[q], b.group[q], 1e-7, 1e-7 * (s.len + a.group[q].translation().norm()), "camera " + std::to_string(q) + " of the second call");
  c.near(b.c0, a.c0, 1e-9 * a.c0 + 1e-12 * unit, "initial cost of the second call");
  c.near(b.c1, a.c1, 1e-9 * a.c1 + 1e-12 * unit, "final cost of the second call");
  c.check(a.cov.covariance_matrix.rows() == b.cov.covariance_matrix.rows(), "covariance size of the second call");
  if (a.cov.covariance_matrix.size() && !gaugeFree(s))
    c.le((a.cov.covariance_matrix - b.cov.covariance_matrix).norm(), 1e-5 * a.cov.covariance_matrix.norm(), "covariance of the second call");
}
PBT(C10, circle, "circle fits of reordered and moved points, in other units, and repeated after other fits", 6000, 200000)
{
  rct_optimizations::CircleFitProblem p;
  const double R = c.logr(0.1, 100), noise = c.pick({ 0.02, 0.0, 0.1 });
  const Eigen::Vector2d ctr(c.r(-10, 10) * R, c.r(-10, 10) * R);
  const int n = c.i(3, 20);
  for (int k = 0; k < n; ++k)
  {
    const double a = 2 * M_PI * (k + c.r(-0.3, 0.3)) / n, q = R * (1 + c.r(-noise, noise));
    p.observations.push_back(ctr + q * Eigen::Vector2d(std::cos(a), std::sin(a)));
  }
  p.x_center_initial = ctr.x() + c.r(-0.4, 0.4) * R;
  p.y_center_initial = ctr.y() + c.r(-0.4, 0.4) * R;
  p.radius_initial = R * c.r(0.7, 1.5);
  c.note("n", n);
  c.note("R", R);
  c.note("noise", noise);
  auto q = p;
  const auto a = optimize(p);
  c.check(q.observations == p.observations && q.x_center_initial == p.x_center_initial && q.y_center_initial == p.y_center_initial && q.radius_initial == p.radius_initial,
          "the solver changed the problem it was given");
  const int what = c.i(1, 7);
  const double f = what & 1 ? c.logr(0.05, 20) : 1.0, turn = what & 2 ? c.r(-M_PI, M_PI) : 0.0;
  const Eigen::Vector2d t = what & 2 ? Eigen::Vector2d(R * f * c.r(-10, 10), R * f * c.r(-10, 10)) : Eigen::Vector2d(0, 0);
  const Eigen::Matrix2d Q = Eigen::Rotation2Dd(turn).toRotationMatrix();
  const auto order = what & 4 ? c.perm(n) : std::vector<std::size_t>();
  for (int k = 0; k < n; ++k)
    q.observations[k] = f * (Q * p.observations[what & 4 ? order[k] : k]) + t;
  const Eigen::Vector2d g = f * (Q * Eigen::Vector2d(p.x_center_initial, p.y_center_initial)) + t;
  q.x_center_initial = g.x();
  q.y_center_initial = g.y();
  q.radius_initial *= f;
  c.nontrivial();
  const int others = c.i(0, 2);
  for (int k = 0; k < others; ++k)
  {
    auto o = p;
    o.observations.resize(3);
    o.radius_initial = c.r(0, 5);
    try
    {
      optimize(o);
    }
    catch (const std::exception&)
    {
    }
  }
  const auto b = optimize(q);
  const Eigen::Vector2d e = f * (Q * Eigen::Vector2d(a.x_center, a.y_center)) + t;
  const double tol = (noise > 0 ? 2e-3 : 1e-3) * R * f, unit = std::pow(R, 4);
  c.check(a.converged && b.converged, "did not converge");
  c.near(b.x_center, e.x(), tol, "centre x of the changed problem");
  c.near(b.y_center, e.y(), tol, "centre y of the changed problem");
  c.near(b.radius, f * a.radius, tol, "radius of the changed problem");
  const double f4 = std::pow(f, 4);
  c.near(b.initial_cost_per_obs / f4, a.initial_cost_per_obs, 1e-9 * a.initial_cost_per_obs + 1e-10 * unit, "initial cost of the changed problem");
  c.near(b.final_cost_per_obs / f4, a.final_cost_per_obs, 5e-3 * a.final_cost_per_obs + 1e-7 * unit, "final cost of the changed problem");
  const auto r = optimize(p);
  c.check(r.x_center == a.x_center && r.y_center == a.y_center && r.radius == a.radius && r.converged == a.converged &&
              r.final_cost_per_obs == a.final_cost_per_obs && r.initial_cost_per_obs == a.initial_cost_per_obs,
          "the same fit again gives another result");
}
