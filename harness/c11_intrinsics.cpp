#include "geom.h"
#include <rct_optimizations/experimental/camera_intrinsic.h>
using namespace geom;
using namespace rct_optimizations;
namespace
{
struct Cam
{
  double v[9];  // fx fy cx cy k1 k2 p1 p2 k3
};
Vector2d project(const double* v, const Vector3d& p)
{
  const double x = p.x() / p.z(), y = p.y() / p.z(), r2 = x * x + y * y;
  const double rad = 1 + r2 * (v[4] + r2 * (v[5] + r2 * v[8]));
  const double xd = x * rad + 2 * v[6] * x * y + v[7] * (r2 + 2 * x * x);
  const double yd = y * rad + v[6] * (r2 + 2 * y * y) + 2 * v[7] * x * y;
  return Vector2d(v[0] * xd + v[2], v[1] * yd + v[3]);
}
struct Set
{
  Cam truth;
  Poses poses;
  std::vector<std::vector<Vector3d>> pts;
  std::vector<std::vector<Vector2d>> obs;
  std::vector<bool> usable;
  bool guessed = false;
  IntrinsicEstimationProblem p;
  int nObs = 0;
};
VectorXd resid(const Set& s, const double* v, const Poses& p)
{
  VectorXd r(2 * s.nObs);
  int at = 0;
  for (std::size_t i = 0; i < p.size(); ++i)
    if (s.usable[i])
      for (std::size_t k = 0; k < s.pts[i].size(); ++k, at += 2)
        r.segment<2>(at) = project(v, p[i] * s.pts[i][k]) - s.obs[i][k];
  return r;
}
// image set; noise in pixels
void make(Case& c, Set& s, double noise)
{
  const double f = c.r(500, 1500);
  const double vals[9] = { f, f * c.r(0.9, 1.1), c.r(300, 800), c.r(250, 600), 0, 0, 0, 0, 0 };
  std::copy(vals, vals + 9, s.truth.v);
  if (c.b(3, 4))
  {
    c.label("distorted");
    s.truth.v[4] = c.r(-0.25, 0.25);
    s.truth.v[5] = c.r(-0.1, 0.1);
    s.truth.v[6] = c.r(-0.004, 0.004);
    s.truth.v[7] = c.r(-0.004, 0.004);
    s.truth.v[8] = c.r(-0.03, 0.03);
  }
  s.guessed = c.b();
  c.label(s.guessed ? "poses:given" : "poses:default");
  const int n = c.i(6, 9), nx = c.i(5, 8), ny = c.i(5, 8);
  const double half = c.r(0.15, 0.25);
  const bool partial = c.b();
  for (int i = 0; i < n; ++i)
  {
    // board facing the camera, as the default starting pose assumes; anywhere when starting poses are given
    const double yaw = s.guessed ? c.r(-M_PI, M_PI) : c.r(-0.5, 0.5);
    const double az = 2 * M_PI * i / n + c.r(-0.4, 0.4), tilt = c.r(0.3, 0.65);
    const Matrix3d R = expSO3(Vector3d(std::cos(az), std::sin(az), 0) * tilt) * expSO3(Vector3d(0, 0, yaw)) * expSO3(Vector3d(M_PI, 0, 0));
    const double d = c.r(2.2, 3.2) * half;
    const Vector3d t(c.r(-0.25, 0.25) * half, c.r(-0.25, 0.25) * half, d);
    const Isometry3d T = iso(R, t);
    std::vector<Vector3d> pts;
    std::vector<Vector2d> obs;
    for (int a = 0; a < nx; ++a)
      for (int b = 0; b < ny; ++b)
      {
        if (partial && !c.b(5, 6))
          continue;
        const Vector3d x(half * (2.0 * a / (nx - 1) - 1), half * (2.0 * b / (ny - 1) - 1), 0);
        pts.push_back(x);
        obs.push_back(project(s.truth.v, T * x) + Vector2d(c.r(-noise, noise), c.r(-noise, noise)));
      }
    if (partial)
      c.label("view:partial");
    bool use = true;
    if (c.b(1, 12))
    {
      // an image that does not determine a pose
      if (c.b() || pts.size() < 3)
      {
        pts.clear();
        obs.clear();
      }
      else
      {
        // collinear
        pts.resize(3);
        obs.clear();
        for (int k = 0; k < 3; ++k)
        {
          pts[k] = Vector3d(half * (k - 1), 0, 0);
          obs.push_back(project(s.truth.v, T * pts[k]));
        }
      }
      use = false;
      c.label("image:unusable");
    }
    s.poses.push_back(T);
    s.pts.push_back(pts);
    s.obs.push_back(obs);
    s.usable.push_back(use);
    Correspondence2D3D::Set set;
    for (std::size_t k = 0; k < pts.size(); ++k)
      set.push_back(Correspondence2D3D(obs[k], pts[k]));
    s.p.image_observations.push_back(set);
    if (use)
      s.nObs += int(pts.size());
    if (s.guessed)
      s.p.extrinsic_guesses.push_back(perturb(c, T, 0.15, 0.05 * d));
  }
  if (std::count(s.usable.begin(), s.usable.end(), true) < 5)
    c.discard();
  s.p.use_extrinsic_guesses = s.guessed;
  s.p.intrinsics_guess.fx() = s.truth.v[0] * c.r(0.9, 1.1);
  s.p.intrinsics_guess.fy() = s.truth.v[1] * c.r(0.9, 1.1);
  s.p.intrinsics_guess.cx() = s.truth.v[2] + 30 * c.r(-1, 1);
  s.p.intrinsics_guess.cy() = s.truth.v[3] + 30 * c.r(-1, 1);
  c.note("images", n);
  c.note("grid", std::to_string(nx) + "x" + std::to_string(ny));
  std::string t;
  for (double q : s.truth.v)
    t += std::to_string(q) + " ";
  c.note("camera", t);
}
// Jacobian over (9 intrinsics, 6 per usable image: rx ry rz x y z)
MatrixXd jac(const Set& s, const double* v, const Poses& poses, int& n)
{
  std::vector<int> use;
  for (std::size_t i = 0; i < poses.size(); ++i)
    if (s.usable[i])
      use.push_back(int(i));
  n = 9 + 6 * int(use.size());
  VectorXd x(n);
  for (int k = 0; k < 9; ++k)
    x(k) = v[k];
  for (std::size_t q = 0; q < use.size(); ++q)
  {
    const Eigen::AngleAxisd a(poses[use[q]].linear());
    x.segment<3>(9 + 6 * q) = a.angle() * a.axis();
    x.segment<3>(9 + 6 * q + 3) = poses[use[q]].translation();
  }
  auto f = [&](const VectorXd& y) {
    Poses p = poses;
    for (std::size_t q = 0; q < use.size(); ++q)
      p[use[q]] = iso(expSO3(y.segment<3>(9 + 6 * q)), y.segment<3>(9 + 6 * q + 3));
    return resid(s, y.data(), p);
  };
  MatrixXd J(2 * s.nObs, n);
  for (int k = 0; k < n; ++k)
  {
    const double h = k < 4 ? 1e-3 : (k < 9 ? 1e-6 : 1e-6);
    VectorXd a = x, b = x;
    a(k) += h;
    b(k) -= h;
    J.col(k) = (f(a) - f(b)) / (2 * h);
  }
  return J;
}
void shape(Case& c, const Set& s, const IntrinsicEstimationResult& r)
{
  c.check(r.target_transforms.size() == s.poses.size(), "number of returned target poses differs from the number of images");
  for (std::size_t i = 0; i < s.poses.size(); ++i)
    if (s.usable[i])
      properRot(c, r.target_transforms[i], "target pose " + std::to_string(i));
}
void values(const IntrinsicEstimationResult& r, double* v)
{
  v[0] = r.intrinsics.fx();
  v[1] = r.intrinsics.fy();
  v[2] = r.intrinsics.cx();
  v[3] = r.intrinsics.cy();
  for (int k = 0; k < 5; ++k)
    v[4 + k] = r.distortions[k];
}
Poses asPoses(const std::vector<Isometry3d>& v) { return Poses(v.begin(), v.end()); }
}  // namespace

PBT(C11, recover, "noise-free images through a camera with lens distortion", 450, 20000)
{
  Set s;
  make(c, s, 0);
  c.nontrivial(c.labels.count("distorted") > 0);
  const auto r = optimize(s.p);
  shape(c, s, r);
  c.check(r.converged, "did not converge on noise-free images");
  c.le(r.final_cost_per_obs, 1e-5, "final cost per observation on noise-free images");
  double v[9];
  values(r, v);
  const Poses sol = asPoses(r.target_transforms);
  const VectorXd f = resid(s, v, sol);
  c.le(f.squaredNorm() / (2 * s.nObs), 1e-4, "returned camera and poses do not reproduce the images (mean squared residual)");
  // the true parameters have zero residual, so the error of each is bounded by its standard deviation times |f|
  int n;
  const MatrixXd C = invInfo(jac(s, s.truth.v, s.poses, n));
  static const char* nm[] = { "fx", "fy", "cx", "cy", "k1", "k2", "p1", "p2", "k3" };
  for (int k = 0; k < 9; ++k)
    c.near(v[k], s.truth.v[k], 3 * std::sqrt(C(k, k)) * f.norm() + 1e-7 * (k < 4 ? s.truth.v[0] : 1.0), std::string("recovered ") + nm[k]);
  int q = 9;
  for (std::size_t i = 0; i < sol.size(); ++i)
    if (s.usable[i])
    {
      const double sr = C.diagonal().segment<3>(q).sum(), st = C.diagonal().segment<3>(q + 3).sum();
      samePose(c, sol[i], s.poses[i], 3 * std::sqrt(sr) * f.norm() + 1e-7, 3 * std::sqrt(st) * f.norm() + 1e-7, "pose of image " + std::to_string(i));
      q += 6;
    }
}
PBT(C11, noisy, "noisy images", 250, 10000)
{
  Set s;
  const double e = c.pick({ 0.3, 1.0 });
  make(c, s, e);
  c.nontrivial();
  const auto r = optimize(s.p);
  shape(c, s, r);
  double v[9];
  values(r, v);
  const double n2 = 2.0 * s.nObs;
  const double cf = 0.5 * resid(s, v, asPoses(r.target_transforms)).squaredNorm() / n2;
  const double ct = 0.5 * resid(s, s.truth.v, s.poses).squaredNorm() / n2;
  c.near(r.final_cost_per_obs, cf, 1e-6 * cf + 1e-10, "reported final cost");
  c.le(r.final_cost_per_obs, r.initial_cost_per_obs * (1 + 1e-12), "final cost is greater than the initial cost");
  c.le(cf, ct * (1 + 1e-6) + 1e-9, "final cost is worse than that of the true parameters");
}
PBT(C11, given_poses, "the same images with and without given starting poses", 160, 6000)
{
  Set s;
  make(c, s, c.pick({ 0.3, 0.0 }));
  if (s.guessed)
    c.discard();
  c.nontrivial();
  const auto a = optimize(s.p);
  for (auto& T : s.poses)
    s.p.extrinsic_guesses.push_back(perturb(c, T, 0.15, 0.02));
  s.p.use_extrinsic_guesses = true;
  const auto b = optimize(s.p);
  shape(c, s, a);
  shape(c, s, b);
  double v[9], w[9];
  values(a, v);
  values(b, w);
  const VectorXd fa = resid(s, v, asPoses(a.target_transforms)), fb = resid(s, w, asPoses(b.target_transforms));
  c.le((fa - fb).squaredNorm(), 1e-2 * fa.squaredNorm() + 1e-4 * s.nObs, "calibrations with and without starting poses differ (squared pixel distance)");
}
PBT(C14, intrinsics, "intrinsic calibration of noisy images", 120, 4000)
{
  Set s;
  make(c, s, 0.3);
  const auto r = optimize(s.p);
  shape(c, s, r);
  double v[9];
  values(r, v);
  int n;
  const Poses sol = asPoses(r.target_transforms);
  const MatrixXd C = invInfo(jac(s, v, sol, n));
  c.nontrivial();
  const MatrixXd& G = r.covariance.covariance_matrix;
  c.check(G.rows() == n && G.cols() == n && int(r.covariance.standard_deviations.size()) == n, "size of the covariance matrix");
  std::vector<std::string> names = { "fx", "fy", "cx", "cy", "k1", "k2", "p1", "p2", "k3" };
  std::vector<bool> amb(9, false);
  for (std::size_t i = 0; i < sol.size(); ++i)
    if (s.usable[i])
      for (const char* q : { "rx", "ry", "rz", "x", "y", "z" })
      {
        names.push_back("pose" + std::to_string(i) + "_" + q);
        // the rotation vector may be on either side of a half turn
        amb.push_back(Eigen::AngleAxisd(sol[i].linear()).angle() > 2.6 && q[0] == 'r');
      }
  std::map<std::string, int> at;
  for (int k = 0; k < n; ++k)
    at[names[k]] = k;
  std::vector<int> row;
  std::set<int> seen;
  for (int k = 0; k < n; ++k)
  {
    const auto& q = r.covariance.standard_deviations[k].names.first;
    c.check(at.count(q) && seen.insert(at[q]).second, "unexpected label " + q);
    row.push_back(at[q]);
  }
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      if (!amb[row[i]] && !amb[row[j]])
        c.near(G(i, j), C(row[i], row[j]), 2e-2 * std::sqrt(C(row[i], row[i]) * C(row[j], row[j])), "covariance of " + names[row[i]] + " and " + names[row[j]]);
}

// Predicted cost decrease of one more Gauss-Newton step over camera and poses
static double decrement(const Set& s, const double* v, const Poses& p)
{
  int n;
  const MatrixXd J = jac(s, v, p, n);
  VectorXd sc = J.colwise().norm();
  for (int k = 0; k < n; ++k)
    sc[k] = std::max(sc[k], 1e-12);
  const VectorXd g = (J * sc.cwiseInverse().asDiagonal()).transpose() * resid(s, v, p);
  const MatrixXd Js = J * sc.cwiseInverse().asDiagonal();
  const MatrixXd H = Js.transpose() * Js + 1e-9 * MatrixXd::Identity(n, n);
  return 0.5 * g.dot(H.ldlt().solve(g));
}
PBT(C09, intrinsics, "intrinsic calibration of noisy images", 120, 4000)
{
  Set s;
  make(c, s, c.pick({ 1.0, 0.3, 0.0, 3.0 }));
  c.nontrivial();
  const auto r = optimize(s.p);
  shape(c, s, r);
  double v[9];
  values(r, v);
  const Poses sol = asPoses(r.target_transforms);
  const double n2 = 2.0 * s.nObs, c1 = 0.5 * resid(s, v, sol).squaredNorm();
  c.near(r.final_cost_per_obs, c1 / n2, 1e-6 * c1 / n2 + 1e-10, "reported final cost");
  c.le(r.final_cost_per_obs, r.initial_cost_per_obs * (1 + 1e-12), "final cost is greater than the initial cost");
  // the starting point is the camera guess without distortion and, for it, the best pose of each image
  Cam g{ { s.p.intrinsics_guess.fx(), s.p.intrinsics_guess.fy(), s.p.intrinsics_guess.cx(), s.p.intrinsics_guess.cy(), 0, 0, 0, 0, 0 } };
  double c0 = 0;
  for (std::size_t i = 0; i < s.poses.size(); ++i)
    if (s.usable[i])
    {
      Poses one{ s.poses[i] };
      const ResidualFn f = [&](const Poses& q) {
        VectorXd e(2 * s.pts[i].size());
        for (std::size_t k = 0; k < s.pts[i].size(); ++k)
          e.segment<2>(2 * k) = project(g.v, q[0] * s.pts[i][k]) - s.obs[i][k];
        return e;
      };
      c0 += refLM(f, one, 15);
    }
  c.near(r.initial_cost_per_obs, c0 / n2, 1e-2 * c0 / n2 + 1e-6, "reported initial cost");
  if (r.converged)
    c.le(decrement(s, v, sol), 2e-2 * c1 + 1e-4 * n2, "reported convergence at a point that is not stationary");
}
static void sameCalibration(Case& c, const Set& s, const IntrinsicEstimationResult& a, const IntrinsicEstimationResult& b, const std::string& what)
{
  shape(c, s, a);
  shape(c, s, b);
  double v[9], w[9];
  values(a, v);
  values(b, w);
  const VectorXd fa = resid(s, v, asPoses(a.target_transforms)), fb = resid(s, w, asPoses(b.target_transforms));
  c.le((fa - fb).squaredNorm(), 1e-2 * fa.squaredNorm() + 1e-4 * s.nObs, what + ": calibrations differ (squared pixel distance)");
  c.near(b.final_cost_per_obs, a.final_cost_per_obs, 1e-2 * a.final_cost_per_obs + 1e-5, what + ": final cost");
  c.near(b.initial_cost_per_obs, a.initial_cost_per_obs, 1e-2 * a.initial_cost_per_obs + 1e-5, what + ": initial cost");
  // the camera within a fraction of its standard deviation for errors of one pixel
  int n;
  const VectorXd sd = invInfo(jac(s, s.truth.v, s.poses, n)).diagonal().cwiseSqrt();
  static const char* nm[] = { "fx", "fy", "cx", "cy", "k1", "k2", "p1", "p2", "k3" };
  const double e = 3 * (fa - fb).norm();
  for (int k = 0; k < 9; ++k)
    c.near(w[k], v[k], e * sd[k] + 1e-6 * (k < 4 ? s.truth.v[0] : 1.0), what + ": " + nm[k]);
}
static bool sameInput(const IntrinsicEstimationProblem& a, const IntrinsicEstimationProblem& b)
{
  bool e = a.intrinsics_guess.values == b.intrinsics_guess.values && a.use_extrinsic_guesses == b.use_extrinsic_guesses &&
           a.extrinsic_guesses.size() == b.extrinsic_guesses.size() && a.image_observations.size() == b.image_observations.size();
  for (std::size_t i = 0; e && i < a.extrinsic_guesses.size(); ++i)
    e = a.extrinsic_guesses[i].matrix() == b.extrinsic_guesses[i].matrix();
  for (std::size_t i = 0; e && i < a.image_observations.size(); ++i)
  {
    e = a.image_observations[i].size() == b.image_observations[i].size();
    for (std::size_t k = 0; e && k < a.image_observations[i].size(); ++k)
      e = a.image_observations[i][k].in_image == b.image_observations[i][k].in_image && a.image_observations[i][k].in_target == b.image_observations[i][k].in_target;
  }
  return e;
}
PBT(C10, intrinsics, "intrinsic calibration of reordered images and features, in other units and target frames, and after other problems", 130, 4000)
{
  Set s;
  make(c, s, c.pick({ 0.3, 0.0, 1.0 }));
  const IntrinsicEstimationProblem before = s.p;
  const auto a = optimize(s.p);
  c.check(sameInput(before, s.p), "the solver changed the problem it was given");
  IntrinsicEstimationProblem p = s.p;
  const int n = int(s.poses.size());
  switch (c.i(0, 3))
  {
    case 0:
    {
      c.label("reordered");
      const auto q = c.perm(n);
      for (int i = 0; i < n; ++i)
      {
        p.image_observations[i] = s.p.image_observations[q[i]];
        const auto old = p.image_observations[i];
        const auto w = c.perm(old.size());
        for (std::size_t k = 0; k < w.size(); ++k)
          p.image_observations[i][k] = old[w[k]];
        if (s.guessed)
          p.extrinsic_guesses[i] = s.p.extrinsic_guesses[q[i]];
        if (int(q[i]) != i)
          c.nontrivial();
      }
      auto b = optimize(p);
      c.check(b.target_transforms.size() == std::size_t(n), "number of returned poses");
      auto m = b;
      for (int i = 0; i < n; ++i)
        m.target_transforms[q[i]] = b.target_transforms[i];
      sameCalibration(c, s, a, m, "after reordering");
      break;
    }
    case 1:
    {
      c.label("units");
      c.nontrivial();
      // the default starting pose is at half a metre, so that only moderate changes leave it a starting pose
      const double f = s.guessed ? c.logr(0.02, 50) : c.r(0.8, 1.3);
      c.note("factor", f);
      for (auto& o : p.image_observations)
        for (auto& q : o)
          q.in_target *= f;
      for (auto& g : p.extrinsic_guesses)
        g.translation() *= f;
      auto b = optimize(p);
      for (auto& t : b.target_transforms)
        t.translation() /= f;
      sameCalibration(c, s, a, b, "after a change of units");
      break;
    }
    case 2:
    {
      if (!s.guessed)
        c.discard();
      c.label("frames");
      c.nontrivial();
      Poses G;
      for (int i = 0; i < n; ++i)
      {
        G.push_back(anyIso(c, 0.3));
        for (auto& q : p.image_observations[i])
          q.in_target = G[i].inverse() * q.in_target;
        p.extrinsic_guesses[i] = p.extrinsic_guesses[i] * G[i];
      }
      auto b = optimize(p);
      c.check(b.target_transforms.size() == std::size_t(n), "number of returned poses");
      for (int i = 0; i < n; ++i)
        b.target_transforms[i] = b.target_transforms[i] * G[i].inverse();
      sameCalibration(c, s, a, b, "after a change of target frames");
      break;
    }
    default:
    {
      c.label("repeated");
      c.nontrivial();
      const int k = c.i(0, 2);
      for (int i = 0; i < k; ++i)
      {
        Set o;
        make(c, o, 0.5);
        try
        {
          optimize(o.p);
        }
        catch (const std::exception&)
        {
        }
      }
      const auto b = optimize(s.p);
      double v[9], w[9];
      values(a, v);
      values(b, w);
      for (int i = 0; i < 9; ++i)
        c.near(w[i], v[i], 1e-7 * (i < 4 ? s.truth.v[0] : 1.0), "camera parameter " + std::to_string(i) + " of the second call");
      c.check(a.converged == b.converged && a.target_transforms.size() == b.target_transforms.size(), "solving again gives another kind of result");
      for (int i = 0; i < n; ++i)
        if (s.usable[i])
          samePose(c, a.target_transforms[i], b.target_transforms[i], 1e-7, 1e-7, "pose of the second call");
      c.near(b.initial_cost_per_obs, a.initial_cost_per_obs, 1e-9 * a.initial_cost_per_obs + 1e-12, "initial cost of the second call");
      c.near(b.final_cost_per_obs, a.final_cost_per_obs, 1e-9 * a.final_cost_per_obs + 1e-12, "final cost of the second call");
      c.check(a.covariance.covariance_matrix.rows() == b.covariance.covariance_matrix.rows(), "covariance size of the second call");
      c.le((a.covariance.covariance_matrix - b.covariance.covariance_matrix).norm(), 1e-5 * a.covariance.covariance_matrix.norm(), "covariance of the second call");
    }
  }
}
