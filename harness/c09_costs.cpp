#include "solver_checks.h"
#include <rct_optimizations/circle_fit.h>
using namespace scene;
// Reported costs of all pose solvers against the independent measurement model.
static void costs(Case& c, bool wild)
{
  GenOpt o;
  o.noise = c.pick({ 0.5, 0.0, 5.0 });
  o.outlier = true;
  o.exactGuess = !wild;
  o.maxViews = 5;
  if (wild)
  {
    o.rmax = 0.6;
    o.tmax = 0.4;
    o.minGuessDepth = 0.02;
  }
  const Kind k = anyKind(c);
  const Scene s = gen(c, k, o);
  describe(c, s);
  c.note("noise", o.noise);
  c.nontrivial(o.noise > 0);
  Out r;
  try
  {
    r = solve(s);
  }
  catch (const std::exception&)
  {
    // the covariance of a diverged estimate may not exist; not the subject of this property
    c.check(wild, "solver failed on a well-posed problem");
    c.label("refused");
    c.discard();
  }
  c.label(r.converged ? "converged" : "notConverged");
  const double unit = s.is3D() ? s.len * s.len : 1.0;
  const double n = s.nRes();
  const double e0 = 0.5 * residuals(s, s.guess).squaredNorm() / n;
  c.near(r.c0, e0, 1e-6 * e0 + 1e-10 * unit, "initial cost per observation");
  c.le(r.c1, r.c0 * (1 + 1e-12), "final cost is greater than the initial cost");
  const VectorXd f = residualsOf(s, r);
  if (!f.allFinite())
    c.discard();
  double zm = 1;
  if (!s.is3D())
  {
    zm = 1e300;
    Poses p = r.poses;
    for (auto& v : s.views)
      for (auto& q : v.corr)
        zm = std::min(zm, std::abs(inCamera(s, p, v, q.pt).z()) / s.len);
  }
  if (zm < 1e-3)
    c.discard();
  const double e1 = 0.5 * f.squaredNorm() / n;
  c.near(r.c1, e1, 1e-6 * e1 + 1e-10 * unit, "final cost per observation");
  if (r.converged && !wild)
  {
    Poses all = s.guess;
    auto fr = freePoses(s);
    for (std::size_t q = 0; q < all.size(); ++q)
      if (fr[q])
        all[q] = r.poses[q];
    const ResidualFn fn = freeFn(s, s.guess);
    const double floor = 3e-3 * e1 * n + 1e-6 * unit;
    double d = decrease(fn, freeOf(s, all), floor, 1e-6 * s.len);
    for (int k = 1; k < 3 && d > floor; ++k)
    {
      // not by chance
      const Scene t = nudge(s, k);
      const Out w = solve(t);
      for (std::size_t q = 0; q < all.size(); ++q)
        all[q] = fr[q] ? w.poses[q] : t.guess[q];
      const ResidualFn ft = freeFn(t, t.guess);
      d = w.converged ? decrease(ft, freeOf(t, all), floor, 1e-6 * s.len) : 0;
    }
    c.le(d, floor,
         "reported convergence at a point that is not stationary (possible decrease)");
  }
}
PBT(C09, costs_near, "all pose solvers, noisy measurements, guess near the truth", 1500, 50000) { costs(c, false); }
PBT(C09, costs_far, "all pose solvers, noisy measurements, rough guess (convergence not expected)", 600, 20000) { costs(c, true); }
PBT(C09, circle, "circle fit; points off the circle", 12000, 300000)
{
  rct_optimizations::CircleFitProblem p;
  const double R = c.logr(0.1, 100);
  const Vector2d ctr(c.r(-10, 10) * R, c.r(-10, 10) * R);
  const int n = c.i(3, 25);
  const double noise = c.pick({ 0.05, 0.0, 0.3 });
  c.nontrivial(noise > 0 && n > 3);
  for (int k = 0; k < n; ++k)
  {
    const double a = 2 * M_PI * (k + c.r(-0.3, 0.3)) / n, q = R * (1 + c.r(-noise, noise));
    p.observations.push_back(ctr + q * Vector2d(std::cos(a), std::sin(a)));
  }
  p.x_center_initial = ctr.x() + c.r(-0.5, 0.5) * R;
  p.y_center_initial = ctr.y() + c.r(-0.5, 0.5) * R;
  p.radius_initial = R * c.r(0.5, 1.6);
  c.note("n", n);
  c.note("R", R);
  c.note("noise", noise);
  auto cst = [&](double x, double y, double r) {
    double s = 0;
    for (auto& q : p.observations)
    {
      const double e = r * r - std::pow(q.x() - x, 2) - std::pow(q.y() - y, 2);
      s += 0.5 * e * e;
    }
    return s / n;
  };
  const auto r = optimize(p);
  const double unit = std::pow(R, 4);
  const double e0 = cst(p.x_center_initial, p.y_center_initial, p.radius_initial), e1 = cst(r.x_center, r.y_center, r.radius);
  c.near(r.initial_cost_per_obs, e0, 1e-9 * e0 + 1e-12 * unit, "initial cost per observation");
  c.near(r.final_cost_per_obs, e1, 1e-7 * e1 + 1e-10 * unit, "final cost per observation");
  c.le(r.final_cost_per_obs, r.initial_cost_per_obs * (1 + 1e-12), "final cost is greater than the initial cost");
}
// Arbitrary guesses: many never converge within the iteration limit. Ceres itself rarely (about 0.2%) stops early on a
// cliff of the cost, so single reports of convergence are not judged, only an accumulation of wrong ones.
static void arbitrary(Case& c, std::initializer_list<Kind> kinds, int runs)
{
  int bad = 0;
  std::string what;
  const Kind kind = c.pick(kinds);
  for (int n = 0; n < runs; ++n)
  {
    GenOpt o;
    o.noise = c.pick({ 0.5, 5.0 });
    o.maxViews = 4;
    Scene s = gen(c, kind, o);
    auto fr = freePoses(s);
    for (std::size_t q = 0; q < s.guess.size(); ++q)
      if (fr[q] && !(s.kind == MSCW && q == 0))
        s.guess[q] = iso(expSO3(dir(c) * c.r(0, M_PI)) * s.truth[q].linear(), s.truth[q].translation() + s.len * vec(c, 1.5));
    Out r;
    try
    {
      r = solve(s);
    }
    catch (const std::exception&)
    {
      c.label("refused");
      continue;
    }
    Poses all = s.guess;
    for (std::size_t q = 0; q < all.size(); ++q)
      if (fr[q])
        all[q] = r.poses[q];
    double zm = 1e300, zM = 0;
    for (auto& v : s.views)
      for (auto& q : v.corr)
      {
        const double z = std::abs(inCamera(s, all, v, q.pt).z());
        zm = std::min(zm, z);
        zM = std::max(zM, z);
      }
    if (!s.is3D() && (zm < 0.02 * s.len || zM > 30 * s.len))
      continue;
    c.label(r.converged ? "converged" : "notConverged");
    const double unit = s.is3D() ? s.len * s.len : 1.0;
    const ResidualFn fn = freeFn(s, s.guess);
    const double cf = cost(fn, freeOf(s, all)), d = decrease(fn, freeOf(s, all), 1e-2 * cf + 1e-6 * unit, 1e-6 * s.len);
    if (r.converged && !(d <= 1e-2 * cf + 1e-6 * unit))
    {
      ++bad;
      what += std::string(kindName[s.kind]) + " cost " + std::to_string(cf) + " possible decrease " + std::to_string(d) + "; ";
    }
  }
  c.note("bad", bad);
  c.nontrivial();
  c.check(bad < 4, "reported convergence at points that are not stationary: " + what);
}
PBT(C09, converged_means_stationary, "batches of single-view estimates from arbitrary guesses", 300, 8000) { arbitrary(c, { PNP2, PNP2, PNP3 }, 20); }
PBT(C09, converged_means_stationary_multi, "batches of multi-view calibrations from arbitrary guesses", 72, 2000) { arbitrary(c, { HE2, HE3, MSC, MSCO, MSCW, MCP }, 20); }
