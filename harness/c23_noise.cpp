// C23 (noise qualification) and C24 (validation of an intrinsic calibration).
#include "geom.h"
#include <rct_optimizations/validation/noise_qualification.h>
#include <rct_optimizations/validation/camera_intrinsic_calibration_validation.h>
using namespace geom;
using namespace rct_optimizations;
using Eigen::Quaterniond;

namespace
{
// what a quaternion mean has to maximise
Eigen::Matrix4d agreement(const std::vector<Quaterniond>& q)
{
  Eigen::Matrix4d m = Eigen::Matrix4d::Zero();
  for (const auto& a : q)
  {
    const Eigen::Vector4d v(a.w(), a.x(), a.y(), a.z());
    m += v * v.transpose() / v.squaredNorm();
  }
  return m / double(q.size());
}
double angle(const Quaterniond& a, const Quaterniond& b) { return rotAngle(a.toRotationMatrix().transpose() * b.toRotationMatrix()); }
struct Gap
{
  double top, gap;
};
Gap spectrum(const std::vector<Quaterniond>& q)
{
  Eigen::SelfAdjointEigenSolver<Eigen::Matrix4d> es(agreement(q));
  return { es.eigenvalues()(3), es.eigenvalues()(3) - es.eigenvalues()(2) };
}
double rayleigh(const std::vector<Quaterniond>& q, const Quaterniond& m)
{
  const Eigen::Vector4d v(m.w(), m.x(), m.y(), m.z());
  return v.dot(agreement(q) * v);
}
double deviation(const std::vector<Quaterniond>& q, const Quaterniond& m)
{
  double s = 0;
  for (const auto& a : q)
    s += std::pow(angle(a, m), 2);
  return std::sqrt(s / double(q.size() - 1));
}
void checkMean(Case& c, const std::vector<Quaterniond>& q, const Quaterniond& m)
{
  c.near(m.norm(), 1, 1e-9, "norm of the mean orientation");
  const Gap g = spectrum(q);
  c.near(rayleigh(q, m), g.top, 1e-10, "agreement of the mean orientation");
}
std::vector<Quaterniond> orientations(Case& c, int n)
{
  const Matrix3d r = anyRot(c, "mean");
  const double spread = c.pick({ 0.0, 1e-6, 1e-3, 0.1, 1.0, 3.14 });
  std::vector<Quaterniond> q;
  for (int i = 0; i < n; ++i)
  {
    Quaterniond a(Matrix3d(r * expSO3(dir(c) * spread * c.u())));
    a.normalize();
    if (c.b())
      a.coeffs() *= -1;
    q.push_back(a);
  }
  if (spread == 0)
    c.label("identical");
  c.note("spread", spread);
  c.note("n", n);
  return q;
}
}  // namespace

PBT(C23, quaternions, "at least three different orientations", 8000, 200000)
{
  const int n = c.i(2, 25);
  const auto q = orientations(c, n);
  c.nontrivial(n > 2 && !c.labels.count("identical"));
  const auto before = q;
  const QuaternionStats s = computeQuaternionStats(q);
  checkMean(c, q, s.mean);
  checkMean(c, q, computeQuaternionMean(q));
  // angles close to zero carry the error of an arc cosine
  c.near(s.stdev, deviation(q, s.mean), 1e-7, "angular standard deviation");
  if (c.labels.count("identical"))
  {
    c.near(s.stdev, 0, 1e-7, "standard deviation of identical orientations");
    c.near(angle(s.mean, q[0]), 0, 1e-7, "mean of identical orientations");
  }
  const double gap = spectrum(q).gap;
  if (gap < 1e-3)
    return;
  c.label("unique mean");
  // signs and order
  std::vector<Quaterniond> o;
  for (std::size_t i : c.perm(q.size()))
  {
    o.push_back(q[i]);
    if (c.b())
      o.back().coeffs() *= -1;
  }
  const QuaternionStats t = computeQuaternionStats(o);
  c.near(angle(t.mean, s.mean), 0, 1e-7 / gap, "mean of the same orientations with other signs and in another order");
  c.near(t.stdev, s.stdev, 1e-7 / gap, "deviation of the same orientations with other signs and in another order");
  // a common rotation
  const Matrix3d r = anyRot(c, "common");
  const bool left = c.b();
  for (auto& a : o)
    a = left ? Quaterniond(r) * a : a * Quaterniond(r);
  const QuaternionStats u = computeQuaternionStats(o);
  c.near(angle(u.mean, left ? Quaterniond(r) * s.mean : s.mean * Quaterniond(r)), 0, 1e-7 / gap, "mean of rotated orientations");
  c.near(u.stdev, s.stdev, 1e-7 / gap, "deviation of rotated orientations");
}

namespace
{
PnPProblem view(Case& c, const Target& t, const CameraIntrinsics& k, const Isometry3d& truth, double noise, bool lost)
{
  PnPProblem p;
  p.intr = k;
  for (const auto& x : t.pts)
    p.correspondences.emplace_back(refProject(k, truth * x) + noise * Vector2d(c.r(-1, 1), c.r(-1, 1)), x);
  p.camera_to_target_guess = lost ? anyIso(c, 5) : perturb(c, truth, 0.2, 0.1 * truth.translation().norm());
  return p;
}
PnPProblem3D view3(Case& c, const Target& t, const Isometry3d& truth, double noise, bool lost)
{
  PnPProblem3D p;
  for (const auto& x : t.pts)
    p.correspondences.emplace_back(truth * x + noise * vec(c, 1), x);
  p.camera_to_target_guess = lost ? anyIso(c, 5) : perturb(c, truth, 0.2, 0.1);
  if (lost)
  {
    // far away measurements of some points
    for (auto& k : p.correspondences)
      k.in_image += vec(c, 10);
  }
  return p;
}
PnPNoiseStat qualify(const std::vector<PnPProblem>& p) { return qualifyNoise2D(p); }
PnPNoiseStat qualify(const std::vector<PnPProblem3D>& p) { return qualifyNoise3D(p); }

template <class P>
void noise(Case& c, std::vector<P> p,  const std::function<P()>& lostView)
{
  int lost = 0;
  // a view whose pose estimation does not converge, at any place
  if (c.b())
    for (int k = c.i(1, 3); k > 0; --k)
    {
      const std::size_t at = std::size_t(c.i(0, int(p.size())));
      std::vector<P> q(p.begin(), p.begin() + long(at));
      q.push_back(lostView());
      for (std::size_t i = at; i < p.size(); ++i)
        q.push_back(p[i]);
      p.swap(q);
    }
  std::vector<Isometry3d> poses;
  for (const P& v : p)
  {
    try
    {
      const PnPResult r = optimize(v);
      if (r.converged)
        poses.push_back(r.camera_to_target);
      else
        ++lost;
    }
    catch (const std::exception&)
    {
      c.discard();  // no covariance
    }
  }
  if (lost)
    c.label("views that do not converge");
  c.note("views", p.size());
  c.note("not converged", lost);
  if (poses.size() < 2)
    c.discard();
  c.nontrivial();
  const PnPNoiseStat s = qualify(p);
  Vector3d mean = Vector3d::Zero(), var = Vector3d::Zero();
  std::vector<Quaterniond> q;
  double reach = 1e-9;
  for (const auto& x : poses)
  {
    mean += x.translation() / double(poses.size());
    q.emplace_back(x.linear());
    reach = std::max(reach, x.translation().norm());
  }
  for (const auto& x : poses)
    var += (x.translation() - mean).cwiseAbs2() / double(poses.size());
  for (int i = 0; i < 3; ++i)
  {
    c.near(s.p_stat.mean(i), mean(i), 1e-9 * reach, "mean position");
    // the running variance loses digits to the mean
    c.near(s.p_stat.stdev(i), std::sqrt(var(i)), 1e-7 * reach + 1e-6 * std::sqrt(var(i)), "standard deviation of the position");
  }
  checkMean(c, q, s.q_stat.mean);
  c.near(s.q_stat.stdev, deviation(q, s.q_stat.mean), 1e-6, "standard deviation of the orientation");
}
}  // namespace

PBT(C23, views2d, "at least two views that converge", 700, 16000)
{
  const Target t = anyTarget(c, 12, 5);
  const CameraIntrinsics k = anyIntr(c);
  const Isometry3d truth = lookAt(c, t, 0.7);
  const bool same = c.b(1, 4);
  const double px = c.pick({ 0.5, 0.05, 2.0 });
  std::vector<PnPProblem> p;
  for (int n = c.i(2, 8); n > 0; --n)
    p.push_back(same && !p.empty() ? p[0] : view(c, t, k, truth, px, false));
  if (same)
    c.label("identical views");
  noise<PnPProblem>(c, p, [&] {
    PnPProblem v = view(c, t, k, truth, px, true);
    v.intr = anyIntr(c);
    return v;
  });
}
PBT(C23, views3d, "at least two views that converge", 1200, 30000)
{
  const Target t = anyTarget(c, 9, 5);
  const Isometry3d truth = anyIso(c, 3, "truth");
  const bool same = c.b(1, 4);
  const double m = t.size * c.pick({ 0.01, 0.001, 0.1 });
  std::vector<PnPProblem3D> p;
  for (int n = c.i(2, 8); n > 0; --n)
    p.push_back(same && !p.empty() ? p[0] : view3(c, t, truth, m, false));
  if (same)
    c.label("identical views");
  noise<PnPProblem3D>(c, p, [&] { return view3(c, t, truth, m, true); });
}
PBT(C23, identical, "repeated identical views", 300, 6000)
{
  const Target t = anyTarget(c, 9, 5);
  const int n = c.i(2, 10);
  c.note("n", n);
  c.nontrivial();
  PnPNoiseStat s;
  Isometry3d at;
  const Isometry3d truth = lookAt(c, t, 0.7);
  if (c.b())
  {
    const PnPProblem3D p = view3(c, t, truth, 0.01 * t.size, false);
    const PnPResult r = optimize(p);
    if (!r.converged)
      c.discard();
    at = r.camera_to_target;
    s = qualifyNoise3D(std::vector<PnPProblem3D>(n, p));
  }
  else
  {
    const PnPProblem p = view(c, t, anyIntr(c), truth, 0.2, false);
    const PnPResult r = optimize(p);
    if (!r.converged)
      c.discard();
    at = r.camera_to_target;
    s = qualifyNoise2D(std::vector<PnPProblem>(n, p));
  }
  const double reach = at.translation().norm();
  c.near((s.p_stat.mean - at.translation()).norm(), 0, 1e-9 * reach, "mean position");
  c.near(s.p_stat.stdev.norm(), 0, 1e-7 * reach, "standard deviation of the position");
  c.near(rotAngle(at.linear().transpose() * s.q_stat.mean.toRotationMatrix()), 0, 1e-7, "mean orientation");
  c.near(s.q_stat.stdev, 0, 1e-7, "standard deviation of the orientation");
}

// ------------------------------------------------------------------------------------------------------------ C24
namespace
{
struct Shot
{
  Correspondence2D3D::Set s;
  Isometry3d truth, guess;
};
Shot shoot(Case& c, const Target& t, const CameraIntrinsics& k, double px)
{
  Shot s;
  s.truth = lookAt(c, t, 0.7);
  for (std::size_t i : c.perm(t.pts.size()))
  {
    const Vector3d x = t.pts[i];
    s.s.emplace_back(refProject(k, s.truth * x) + px * Vector2d(c.r(-1, 1), c.r(-1, 1)), x);
  }
  s.guess = perturb(c, s.truth, 0.1, 0.05 * s.truth.translation().norm());
  // both halves have to determine the pose well
  const std::size_t h = s.s.size() / 2;
  for (int part = 0; part < 2; ++part)
  {
    const auto first = part ? s.s.begin() + long(h) : s.s.begin(), last = part ? s.s.end() : s.s.begin() + long(h);
    Vector3d mean = Vector3d::Zero();
    for (auto a = first; a != last; ++a)
      mean += a->in_target / double(last - first);
    Matrix3d m = Matrix3d::Zero();
    for (auto a = first; a != last; ++a)
      m += (a->in_target - mean) * (a->in_target - mean).transpose() / double(last - first);
    Eigen::SelfAdjointEigenSolver<Matrix3d> es(m);
    if (last - first < 6 || es.eigenvalues()(1) < 0.02 * t.size * t.size)
      c.discard();
  }
  return s;
}
// The difference by definition; negative: refused
struct Diff
{
  bool refused = false;
  double pos = 0, ang = 0, cost = 0;
  Isometry3d t = Isometry3d::Identity();
};
Diff difference(const Correspondence2D3D::Set& s, const CameraIntrinsics& k, const Isometry3d& guess, double limit)
{
  Diff d;
  Isometry3d x[2];
  for (int part = 0; part < 2; ++part)
  {
    PnPProblem p;
    p.intr = k;
    p.camera_to_target_guess = guess;
    const long h = long(s.size() / 2);
    p.correspondences.assign(part ? s.begin() + h : s.begin(), part ? s.end() : s.begin() + h);
    PnPResult r;
    try
    {
      r = optimize(p);
    }
    catch (const std::exception&)
    {
      d.refused = true;
      return d;
    }
    d.cost = std::max(d.cost, r.final_cost_per_obs);
    if (!r.converged || r.final_cost_per_obs > limit)
      d.refused = true;
    x[part] = r.camera_to_target;
  }
  d.t = x[0].inverse() * x[1];
  d.pos = d.t.translation().norm();
  d.ang = rotAngle(d.t.linear());
  return d;
}
}  // namespace

PBT(C24, perfect, "perfect observations", 1500, 30000)
{
  const Target t = anyTarget(c, 14, 6);
  const CameraIntrinsics k = anyIntr(c);
  const Shot s = shoot(c, t, k, 0);
  c.note("truth", str(s.truth));
  c.nontrivial();
  VirtualCorrespondenceResult r;
  try
  {
    r = c.b() ? measureVirtualTargetDiff(s.s, k, s.guess) : measureVirtualTargetDiff(s.s, k, s.guess, 1e-6);
  }
  catch (const std::exception& e)
  {
    c.fail(std::string("perfect observations were refused: ") + e.what());
  }
  const double d = s.truth.translation().norm();
  c.near(r.positional_error, 0, 2e-5 * d, "positional error");
  c.near(r.angular_error, 0, 2e-5, "angular error");
  samePose(c, r.t1_to_t2, Isometry3d::Identity(), 2e-5, 2e-5 * d, "transform between the halves");
}

PBT(C24, imperfect, "imperfect observations with a threshold of any size", 1500, 30000)
{
  const Target t = anyTarget(c, 14, 6);
  const CameraIntrinsics k = anyIntr(c);
  Shot s = shoot(c, t, k, c.logr(0.02, 3));
  if (c.b(1, 6))
  {
    s.guess = anyIso(c, 3);
    c.label("useless guess");
  }
  double limit = 1.0;
  Diff d = difference(s.s, k, s.guess, 1e300);
  const int kind = c.i(0, 2);
  if (kind == 1)
    limit = d.cost * c.r(0.05, 0.99);
  else if (kind == 2)
    limit = d.cost * c.logr(1.01, 100);
  if (!d.refused && std::abs(limit - d.cost) < 1e-6 * d.cost)
    c.discard();
  d = difference(s.s, k, s.guess, limit);
  c.note("cost", d.cost);
  c.note("limit", limit);
  c.label(d.refused ? "refused" : "measured");
  c.nontrivial();
  VirtualCorrespondenceResult r;
  try
  {
    r = kind ? measureVirtualTargetDiff(s.s, k, s.guess, limit) : measureVirtualTargetDiff(s.s, k, s.guess);
  }
  catch (const std::exception&)
  {
    c.check(d.refused, "refused although both poses were found within the allowed error");
    return;
  }
  c.check(!d.refused, "accepted although a pose was not found within the allowed error");
  c.near(r.positional_error, d.pos, 1e-9 * (1 + d.pos), "positional error");
  c.near(r.angular_error, d.ang, 1e-7, "angular error");
  samePose(c, r.t1_to_t2, d.t, 1e-7, 1e-9 * (1 + d.pos), "transform between the halves");
}

PBT(C24, accuracy, "two or more observations, frames that are not the identity", 500, 10000)
{
  const Target t = anyTarget(c, 14, 5);
  const CameraIntrinsics k = anyIntr(c);
  const bool perfect = c.b(1, 4);
  const double px = perfect ? 0 : c.logr(0.05, 1);
  const Isometry3d cam = c.b() ? anyIso(c, 1) : Isometry3d::Identity(), tgt = c.b() ? anyIso(c, 1) : Isometry3d::Identity(),
                   base = c.b() ? anyIso(c, 2) : Isometry3d::Identity();
  const double limit = c.b() ? 1.0 : c.logr(0.01, 2);
  Observation2D3D::Set all;
  std::vector<Diff> d;
  bool refused = false;
  double reach = 0;
  for (int n = c.i(0, 6); n > 0; --n)
  {
    const Shot s = shoot(c, t, k, px);
    Observation2D3D o;
    o.correspondence_set = s.s;
    o.to_target_mount = c.b() ? anyIso(c, 2) : Isometry3d::Identity();
    o.to_camera_mount = base * o.to_target_mount * tgt * s.guess.inverse() * cam.inverse();
    all.push_back(o);
    d.push_back(difference(s.s, k, s.guess, limit));
    if (std::abs(d.back().cost - limit) < 1e-3 * limit)
      c.discard();
    refused = refused || d.back().refused;
    reach = std::max(reach, s.truth.translation().norm());
  }
  bool uneven = false;
  if (all.size() > 1 && c.b(1, 6))
  {
    auto& s = all[c.i(0, int(all.size()) - 1)].correspondence_set;
    s.pop_back();
    uneven = true;
    c.label("uneven");
  }
  const bool bad = refused || uneven || all.empty();
  c.label(bad ? "refused" : perfect ? "perfect" : "imperfect");
  c.note("observations", all.size());
  c.note("limit", limit);
  c.nontrivial(all.size() > 1);
  IntrinsicCalibrationAccuracyResult r;
  try
  {
    r = measureIntrinsicCalibrationAccuracy(all, k, cam, tgt, base, limit);
  }
  catch (const std::exception& e)
  {
    c.check(bad, std::string("refused: ") + e.what());
    return;
  }
  c.check(!bad, "accepted");
  double pm = 0, am = 0, ps = 0, as = 0;
  const double n = double(d.size());
  for (const auto& x : d)
  {
    pm += x.pos / n;
    am += x.ang / n;
  }
  for (const auto& x : d)
  {
    ps += (x.pos - pm) * (x.pos - pm) / n;
    as += (x.ang - am) * (x.ang - am) / n;
  }
  // two runs of the pose estimation whose starts differ by rounding
  const double tp = 1e-5 * reach + 1e-3 * pm, ta = 1e-5 + 1e-3 * am;
  c.near(r.pos_error.first, pm, tp, "mean of the positional error");
  c.near(r.ang_error.first, am, ta, "mean of the angular error");
  c.near(r.pos_error.second, std::sqrt(ps), tp, "standard deviation of the positional error");
  c.near(r.ang_error.second, std::sqrt(as), ta, "standard deviation of the angular error");
  if (perfect)
  {
    c.near(r.pos_error.first, 0, 2e-5 * reach, "mean of the positional error of perfect observations");
    c.near(r.ang_error.first, 0, 2e-5, "mean of the angular error of perfect observations");
  }
}
