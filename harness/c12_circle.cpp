#include "geom.h"
#include <ceres/jet.h>
#include <rct_optimizations/circle_fit.h>
using namespace geom;
using rct_optimizations::CircleFitProblem;
using rct_optimizations::CircleFitResult;
using P2 = std::vector<Vector2d>;
static CircleFitResult fit(const P2& pts, const Vector2d& c0, double r0)
{
  CircleFitProblem p;
  p.observations = pts;
  p.x_center_initial = c0.x();
  p.y_center_initial = c0.y();
  p.radius_initial = r0;
  return optimize(p);
}
struct Circ
{
  Vector2d ctr;
  double R;
  P2 pts;
  Vector2d g;
  double rg;
};
// points on an arc; simplest: unit circle about the origin
static Circ make(Case& c, double noise, double minArc)
{
  Circ o;
  o.R = c.b() ? 1.0 : c.logr(0.05, 200);
  o.ctr = o.R * Vector2d(c.r(-10, 10), c.r(-10, 10));
  const int n = c.i(3, 30);
  const double arc = c.b() ? 2 * M_PI * (n - 1) / n : c.r(minArc, 6.0);
  const double a0 = c.r(0, 2 * M_PI);
  if (arc < M_PI)
    c.label("shortArc");
  c.label(n == 3 ? "n:3" : "n:many");
  for (int k = 0; k < n; ++k)
  {
    const double a = a0 + arc * (k + (n > 3 ? c.r(-0.3, 0.3) : 0.0)) / (n - 1);
    const double q = o.R * (1 + c.r(-noise, noise));
    o.pts.push_back(o.ctr + q * Vector2d(std::cos(a), std::sin(a)));
  }
  if (c.b(1, 4))
  {
    o.pts.push_back(o.pts[0]);
    c.label("duplicatePoint");
  }
  const int g = c.i(0, 3);
  o.g = o.ctr;
  o.rg = o.R;
  if (g > 0)
  {
    o.g += 0.5 * o.R * Vector2d(c.r(-1, 1), c.r(-1, 1));
    o.rg *= c.logr(0.5, 2);
    c.label("guess:perturbed");
  }
  c.note("R", o.R);
  c.note("n", n);
  c.note("arc", arc);
  return o;
}
// stationary point of sum (r^2 - d^2)^2: linear least squares in (x, y, r^2 - |c|^2)
static Vector3d kasa(const P2& pts)
{
  Vector2d m = Vector2d::Zero();
  for (auto& p : pts)
    m += p;
  m /= double(pts.size());
  MatrixXd A(pts.size(), 3);
  VectorXd b(pts.size());
  for (std::size_t k = 0; k < pts.size(); ++k)
  {
    const Vector2d q = pts[k] - m;
    A.row(k) << 2 * q.x(), 2 * q.y(), 1;
    b(k) = q.squaredNorm();
  }
  const Vector3d s = A.colPivHouseholderQr().solve(b);
  return Vector3d(s(0) + m.x(), s(1) + m.y(), std::sqrt(s(2) + s(0) * s(0) + s(1) * s(1)));
}
static double cst(const P2& pts, const Vector3d& s)
{
  double r = 0;
  for (auto& q : pts)
    r += 0.5 * std::pow(s(2) * s(2) - (q - s.head<2>()).squaredNorm(), 2);
  return r;
}
PBT(C12, exact, "points on a circle; perturbed guess", 40000, 600000)
{
  const Circ o = make(c, 0, 1.0);
  c.nontrivial(c.labels.count("guess:perturbed") > 0);
  const auto r = fit(o.pts, o.g, o.rg);
  c.check(r.converged, "did not converge");
  c.near(r.x_center, o.ctr.x(), 1e-3 * o.R, "centre x");
  c.near(r.y_center, o.ctr.y(), 1e-3 * o.R, "centre y");
  c.near(r.radius, o.R, 1e-3 * o.R, "radius");
}
PBT(C12, noisy_optimum, "noisy points, compared with the closed form of the same fit", 30000, 500000)
{
  const double noise = c.pick({ 0.02, 0.1 });
  const Circ o = make(c, noise, 2.0);
  c.nontrivial();
  const auto r = fit(o.pts, o.g, o.rg);
  const Vector3d k = kasa(o.pts), s(r.x_center, r.y_center, r.radius);
  c.check(r.radius >= 0, "negative radius");
  const double a = cst(o.pts, s), b = cst(o.pts, k);
  c.le(a, b * (1 + 2e-3) + 1e-9 * std::pow(o.R, 4), "the closed form finds a better circle");
}
PBT(C12, moved, "rotated, translated, reordered noisy points with the guess moved along", 20000, 300000)
{
  const Circ o = make(c, 0.05, 2.5);
  const double a = c.r(-M_PI, M_PI);
  Eigen::Matrix2d R;
  R << std::cos(a), -std::sin(a), std::sin(a), std::cos(a);
  const Vector2d t = o.R * Vector2d(c.r(-10, 10), c.r(-10, 10));
  auto mv = [&](const Vector2d& p) -> Vector2d { return R * p + t; };
  P2 q;
  for (auto i : c.perm(o.pts.size()))
    q.push_back(mv(o.pts[i]));
  c.nontrivial(a != 0 && t.norm() > 0);
  const auto r = fit(o.pts, o.g, o.rg), m = fit(q, mv(o.g), o.rg);
  const Vector2d e = mv(Vector2d(r.x_center, r.y_center));
  c.check(r.converged == m.converged, "convergence depends on the frame");
  c.near(m.x_center, e.x(), 2e-3 * o.R, "centre x of the moved problem");
  c.near(m.y_center, e.y(), 2e-3 * o.R, "centre y of the moved problem");
  c.near(m.radius, r.radius, 2e-3 * o.R, "radius of the moved problem");
  c.near(m.final_cost_per_obs, r.final_cost_per_obs, 2e-3 * r.final_cost_per_obs + 1e-9 * std::pow(o.R, 4), "final cost of the moved problem");
}
PBT(C12, radius_sign, "arbitrary points and guesses", 20000, 300000)
{
  P2 p;
  const int n = c.i(3, 12);
  for (int k = 0; k < n; ++k)
    p.push_back(Vector2d(c.r(-5, 5), c.r(-5, 5)));
  c.nontrivial();
  try
  {
    const auto r = fit(p, Vector2d(c.r(-5, 5), c.r(-5, 5)), c.r(0, 5));
    c.check(!(r.radius < 0), "negative radius");
    c.le(r.final_cost_per_obs, r.initial_cost_per_obs * (1 + 1e-12), "final cost is greater than the initial cost");
  }
  catch (const std::exception&)
  {
    c.label("refused");
  }
}
PBT(C12, residual, "both forms of the residual at any circle, and their derivatives", 20000, 400000)
{
  const double px = c.r(-100, 100), py = c.r(-100, 100);
  const rct_optimizations::CircleDistCost f(px, py);
  const double p[3] = { c.b(1, 8) ? px : c.r(-100, 100), c.b(1, 8) ? py : c.r(-100, 100), c.b(1, 8) ? 0.0 : c.r(-12, 12) };
  const double dx = px - p[0], dy = py - p[1], want = std::pow(p[2], 4) - dx * dx - dy * dy, tol = 1e-9 * (1 + std::pow(p[2], 4) + dx * dx + dy * dy);
  c.nontrivial(dx != 0 && dy != 0 && p[2] != 0);
  double a = 0, b = 0;
  c.check(f(p, &a) && f(p, p + 1, p + 2, &b), "residual cannot be evaluated");
  c.near(a, want, tol, "residual of the packed circle");
  c.near(b, want, tol, "residual of the circle in three parameters");
  using J = ceres::Jet<double, 3>;
  const J q[3] = { J(p[0], 0), J(p[1], 1), J(p[2], 2) };
  J ja, jb;
  f(q, &ja);
  f(q, q + 1, q + 2, &jb);
  const double d[3] = { 2 * dx, 2 * dy, 4 * std::pow(p[2], 3) };
  for (int k = 0; k < 3; ++k)
  {
    c.near(ja.v[k], d[k], 10 * tol, "derivative of the packed residual");
    c.near(jb.v[k], d[k], 10 * tol, "derivative of the residual in three parameters");
  }
}
