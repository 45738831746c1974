// C35: the single-camera programs (intrinsics, PnP, noise, validation) report what their pictures hold.
#include "tools.h"
#include <fstream>
#include <opencv2/calib3d.hpp>
#include <opencv2/imgcodecs.hpp>
#include <rct_optimizations/experimental/camera_intrinsic.h>
#include <rct_optimizations/pnp.h>
#include <rct_optimizations/validation/camera_intrinsic_calibration_validation.h>
#include <rct_optimizations/validation/noise_qualification.h>
#include <ros/console.h>
using namespace tools;
using namespace rct_optimizations;

namespace
{
std::string error() { return rosshim::log().lines.empty() ? std::string() : rosshim::log().lines.back().second; }
struct Grid
{
  double scale = 1, size = 1;
  Vector3d centre;
};
Grid grid(Case& c, int lo, int hi, double pmin, double pmax)
{
  Grid g;
  Finder& f = finder();
  f.points.clear();
  f.seen.clear();
  const int nx = c.i(lo, hi), ny = c.i(lo, hi);
  const double pitch = c.r(pmin, pmax);
  g.scale = c.pick({ 1.0, 0.5, 2.0 });
  for (int y = 0; y < ny; ++y)
    for (int x = 0; x < nx; ++x)
      f.points.push_back(Vector3d(pitch * x, pitch * y, 0) / g.scale);
  g.size = pitch * std::max(nx - 1, ny - 1);
  g.centre = Vector3d(pitch * (nx - 1) / 2.0, pitch * (ny - 1) / 2.0, 0);
  return g;
}
// what the finder sees in picture `id`, and the correspondences of it
Correspondence2D3D::Set see(Case& c, const Grid& g, const Isometry3d& ct, const std::function<Vector2d(const Vector3d&)>& project, double noise, Seen::Kind kind, bool partial)
{
  Finder& f = finder();
  Seen s;
  s.kind = kind;
  Correspondence2D3D::Set out;
  for (std::size_t q = 0; q < f.points.size(); ++q)
  {
    if (partial && q > 11 && c.b(1, 4))
      continue;
    Correspondence2D3D y;
    y.in_target = f.points[q] * g.scale;
    y.in_image = project(ct * y.in_target) + Vector2d(c.r(-1, 1), c.r(-1, 1)) * noise;
    s.features[unsigned(q)].push_back(y.in_image);
    out.push_back(y);
  }
  f.seen.push_back(s);
  return out;
}
Matrix3d facing(Case& c, double tmin, double tmax, double yaw)
{
  const double az = c.r(-M_PI, M_PI), tilt = c.r(tmin, tmax);
  return expSO3(Vector3d(std::cos(az), std::sin(az), 0) * tilt) * expSO3(Vector3d(0, 0, c.r(-yaw, yaw))) * expSO3(Vector3d(M_PI, 0, 0));
}
Seen::Kind anyKind(Case& c)
{
  const int k = c.i(0, 9);
  if (k == 8)
    c.label("image:not found");
  if (k == 9)
    c.label("image:empty");
  return k == 8 ? Seen::THROWS : k == 9 ? Seen::NOTHING : Seen::FEATURES;
}
CameraIntrinsics camera(Case& c)
{
  CameraIntrinsics k;
  k.fx() = c.r(150, 260), k.fy() = k.fx() * c.r(0.9, 1.1), k.cx() = c.r(70, 90), k.cy() = c.r(50, 70);
  return k;
}
// one of the things that go wrong with any of the programs
std::string spoil(Case& c, const Grid& g)
{
  const std::vector<std::string> keys = paramKeys();
  const std::string k = c.pick(keys);
  switch (c.i(0, 3))
  {
    case 0:
      dropParam(k);
      return k + " missing";
    case 1:
      setParam(k, XmlRpcValue(true));
      return k + " of another type";
    case 2:
    {
      for (auto& x : finder().seen)
        x.kind = Seen::THROWS;
      return "target not found in any picture";
    }
    default:
    {
      XmlRpcValue v = finderParam(g.scale);
      v["type"] = "verif::None";
      setParam("target_finder", v);
      return "unknown target finder";
    }
  }
}
// all numbers of a message of the log that contains `what`, from there on
std::vector<double> message(Case& c, const std::string& what, std::string* text = nullptr)
{
  for (auto& l : rosshim::log().lines)
  {
    const auto at = l.second.find(what);
    if (at != std::string::npos)
    {
      if (text)
        *text = l.second.substr(at);
      return numbers(l.second.substr(at + what.size()));
    }
  }
  c.fail("'" + what + "' is not reported");
  return {};
}

// --- intrinsic calibration
struct Intr
{
  std::vector<Correspondence2D3D::Set> obs;
  CameraIntrinsics guess;
  Grid g;
  double v[9];
  cv::Size size;
  double noise = 0;
};
Intr intrinsics(Case& c, const Dir& d)
{
  Intr s;
  clearParams();
  s.g = grid(c, 5, 7, 0.03, 0.06);
  const double f = c.r(150, 260);  // the principal point is near the centre of the 160x120 pictures
  const double vals[9] = { f, f * c.r(0.95, 1.05), c.r(75, 85), c.r(55, 65), c.r(-0.2, 0.2), c.r(-0.05, 0.05), c.r(-0.003, 0.003), c.r(-0.003, 0.003), c.r(-0.02, 0.02) };
  std::copy(vals, vals + 9, s.v);
  s.noise = c.b() ? 0.0 : c.r(0.002, 0.05);
  std::vector<Entry> e;
  const int n = c.i(6, 9);
  const bool partial = c.b();
  for (int i = 0; i < n; ++i)
  {
    const double az = 2 * M_PI * i / n + c.r(-0.3, 0.3);
    const Matrix3d r = expSO3(Vector3d(std::cos(az), std::sin(az), 0) * c.r(0.3, 0.6)) * expSO3(Vector3d(0, 0, c.r(-0.4, 0.4))) * expSO3(Vector3d(M_PI, 0, 0));
    const Vector3d at(c.r(-0.1, 0.1) * s.g.size, c.r(-0.1, 0.1) * s.g.size, s.g.size * c.r(1.2, 1.6));
    Entry x;
    x.id = i;
    x.image = image(c, i);
    const Seen::Kind kind = anyKind(c);
    const Correspondence2D3D::Set k = see(c, s.g, iso(r, at - r * s.g.centre), [&](const Vector3d& p) {
      const double px = p.x() / p.z(), py = p.y() / p.z(), r2 = px * px + py * py;
      const double rad = 1 + r2 * (s.v[4] + r2 * (s.v[5] + r2 * s.v[8]));
      return Vector2d(s.v[0] * (px * rad + 2 * s.v[6] * px * py + s.v[7] * (r2 + 2 * px * px)) + s.v[2], s.v[1] * (py * rad + s.v[6] * (r2 + 2 * py * py) + 2 * s.v[7] * px * py) + s.v[3]);
    }, s.noise, kind, partial);
    if (kind == Seen::FEATURES)
      s.obs.push_back(k);
    s.size = x.image.size();
    e.push_back(x);
  }
  s.guess.fx() = s.v[0] * c.r(0.97, 1.03), s.guess.fy() = s.v[1] * c.r(0.97, 1.03), s.guess.cx() = s.v[2] + c.r(-2, 2), s.guess.cy() = s.v[3] + c.r(-2, 2);
  setParam("data_path", writeSet(c, d.path + "/set", e));
  setParam("target_finder", finderParam(s.g.scale));
  setParam("intrinsics", intrParam(s.guess));
  c.note("pictures", n);
  c.note("noise", s.noise);
  return s;
}
void printedIntr(Case& c, const Run& r, const std::string& heading, const std::string& dist, const double* want, double rel, double abs)
{
  const std::size_t l = find(c, r, heading);
  static const char* names[] = { "fx", "fy", "cx", "cy", "k1", "k2", "p1", "p2", "k3" };
  std::vector<double> v;
  for (std::size_t q : { find(c, r, "fx =", l), find(c, r, "cx =", l), find(c, r, "k1 =", find(c, r, dist, l)) })
    for (double x : numbers(r.lines[q]))
      v.push_back(x);
  if (v.size() != 9)
    c.fail(heading + ": nine values expected");
  for (int i = 0; i < 9; ++i)
    c.near(v[std::size_t(i)], want[i], rel * std::abs(want[i]) + (i < 4 ? abs * want[0] : 10 * abs), heading + " " + names[i]);
}
}  // namespace

PBT(C35, intrinsic, "pictures without target among those with it", 120, 4000)
{
  Dir d;
  const Intr s = intrinsics(c, d);
  if (s.obs.size() < 5)
    c.discard();
  c.nontrivial(s.obs.size() < finder().seen.size());
  IntrinsicEstimationProblem p;
  p.intrinsics_guess = s.guess;
  p.image_observations = s.obs;
  IntrinsicEstimationResult want;
  try
  {
    want = optimize(p);
  }
  catch (const std::exception&)
  {
    c.discard();
  }
  if (!want.converged)
    c.discard();
  const Run r = run(c, "intrinsic_calibration");
  if (r.code != 0)
    c.fail("program failed: " + error());
  double w[9];
  for (int i = 0; i < 4; ++i)
    w[i] = want.intrinsics.values[std::size_t(i)];
  for (int i = 0; i < 5; ++i)
    w[4 + i] = want.distortions[std::size_t(i)];
  printedIntr(c, r, "RCT Intrinsics", "RCT Distortion", w, 1e-4, 2e-5);
  c.check(numbers(r.lines[find(c, r, "Did converge?")]) == std::vector<double>{ 1 }, "not reported as converged");
  number(c, numbers(r.lines[find(c, r, "Initial cost?")]).at(0), std::sqrt(want.initial_cost_per_obs), 1e-5, "initial cost");
  number(c, numbers(r.lines[find(c, r, "Final cost?")]).at(0), std::sqrt(want.final_cost_per_obs), 1e-5, "final cost");
  // the independent calibration it is compared with
  if (s.noise == 0)
  {
    printedIntr(c, r, "RCT Intrinsics", "RCT Distortion", s.v, 1e-3, 1e-3);
    printedIntr(c, r, "OpenCV Intrinsics", "OpenCV Distortion", s.v, 1e-3, 2e-3);
  }
}

PBT(C35, pnp, "picture with any part of the target", 600, 20000)
{
  Dir d;
  clearParams();
  const Grid g = grid(c, 4, 7, 0.01, 0.05);
  const CameraIntrinsics k = camera(c);
  const Matrix3d r = facing(c, 0, 0.5, 0.6);
  const Isometry3d ct = iso(r, Vector3d(c.r(-0.2, 0.2) * g.size, c.r(-0.2, 0.2) * g.size, g.size * c.r(1.5, 4)) - r * g.centre);
  const double noise = c.b() ? 0.0 : c.r(0.01, 0.3);
  const Correspondence2D3D::Set corr = see(c, g, ct, [&](const Vector3d& p) { return refProject(k, p); }, noise, Seen::FEATURES, c.b());
  const cv::Mat im = image(c, 0);
  cv::imwrite(d.path + "/x.bmp", im);
  setParam("image_path", d.path + "/x.bmp");
  setParam("target_finder", finderParam(g.scale));
  setParam("intrinsics", intrParam(k));
  c.note("noise", noise);
  c.nontrivial();
  const Run run_ = run(c, "solve_pnp");
  if (run_.code != 0)
    c.fail("program failed: " + error());
  const Isometry3d ocv = transform(c, run_, find(c, run_, "OpenCV solvePNP:")), rct = transform(c, run_, find(c, run_, "RCT CAMERA TO TARGET:"));
  auto cost = [&](const Isometry3d& t) {
    double s = 0;
    for (auto& x : corr)
      s += (refProject(k, t * x.in_target) - x.in_image).squaredNorm();
    return s / double(2 * corr.size()) / 2;
  };
  const bool converged = numbers(run_.lines[find(c, run_, "Did converge?")]) == std::vector<double>{ 1 };
  const double c1 = std::pow(numbers(run_.lines[find(c, run_, "Final cost?")]).at(0), 2);
  c.label(converged ? "converged" : "not converged");
  c.near(c1, cost(rct), 1e-3 * c1 + 1e-4, "printed cost is not that of the printed pose");
  if (noise == 0)
  {
    tools::pose(c, ocv, ct, 5e-3, 5e-3 * ct.translation().norm(), "OpenCV solution (truth)");
    // from the fixed guess of the program another minimum may be found, at higher cost
    if (converged && c1 < 1e-3)
      c.label("solved"), tools::pose(c, rct, ct, 1e-3, 1e-3 * ct.translation().norm(), "solution (truth)");
  }
  // the cameras's own numbers are shown as given
  const std::size_t l = find(c, run_, "Camera Intrinsics");
  for (auto& q : { std::make_pair(find(c, run_, "fx =", l), 0u), std::make_pair(find(c, run_, "cx =", l), 2u) })
  {
    const std::vector<double> v = numbers(run_.lines[q.first]);
    c.check(v.size() == 2, "camera not printed");
    number(c, v[0], k.values[q.second], 0, "camera");
    number(c, v[1], k.values[q.second + 1], 0, "camera");
  }
}

PBT(C35, noise, "several pictures, some without target", 300, 10000)
{
  Dir d;
  clearParams();
  const Grid g = grid(c, 4, 6, 0.02, 0.1);
  const CameraIntrinsics k = camera(c);
  const Matrix3d r = facing(c, 0.1, 0.7, M_PI);
  const Isometry3d ct = iso(r, Vector3d(c.r(-0.2, 0.2) * g.size, c.r(-0.2, 0.2) * g.size, g.size * c.r(2, 4)) - r * g.centre);
  const double noise = c.b(1, 6) ? 0.0 : c.r(0.05, 0.6);
  const Isometry3d guess = perturb(c, ct, 0.05, 0.03 * g.size);
  const int n = c.i(3, 9);
  std::vector<PnPProblem> p;
  std::ofstream list(d.path + "/list.yaml");
  for (int i = 0; i < n; ++i)
  {
    const Seen::Kind kind = anyKind(c);
    PnPProblem q;
    q.correspondences = see(c, g, ct, [&](const Vector3d& x) { return refProject(k, x); }, noise, kind, c.b(1, 3));
    q.intr = k;
    q.camera_to_target_guess = guess;
    if (kind == Seen::FEATURES)
      p.push_back(q);
    const std::string f = "i" + std::to_string(i) + ".bmp";
    cv::imwrite(d.path + "/" + f, image(c, i));
    list << "- image: " << f << "\n  pose: none\n";
  }
  list.close();
  if (p.size() < 2)
    c.discard();
  setParam("data_path", d.path);
  setParam("data_file", d.path + "/list.yaml");
  setParam("target_finder", finderParam(g.scale));
  setParam("intrinsics", intrParam(k));
  setParam("camera_to_target_guess", poseParam(guess));
  c.note("pictures", n);
  c.note("noise", noise);
  c.nontrivial(int(p.size()) < n);
  const PnPNoiseStat want = qualifyNoise2D(p);
  const Run run_ = run(c, "noise_qualification_2d");
  if (run_.code != 0)
    c.fail("program failed: " + error());
  // four significant digits
  auto near = [&](const std::vector<double>& v, const std::vector<double>& w, const std::string& what) {
    c.check(v.size() >= w.size(), what + ": too few numbers");
    for (std::size_t i = 0; i < w.size(); ++i)
      c.near(v[i], w[i], 1e-3 * std::abs(w[i]) + 1e-6 * (1 + g.size), what);
  };
  const Vector3d m = want.p_stat.mean, s = want.p_stat.stdev;
  near(message(c, "Position mean (m)"), { m.x(), m.y(), m.z() }, "mean position");
  near(message(c, "Position standard deviation (m)"), { s.x(), s.y(), s.z() }, "deviation of the position");
  std::vector<double> q = message(c, "Quaternion mean (qx, qy, qz, qw)");
  c.check(q.size() == 4, "mean orientation not reported");
  const Eigen::Vector4d qs(q[0], q[1], q[2], q[3]), qw = want.q_stat.mean.coeffs();
  c.check(std::min((qs - qw).norm(), (qs + qw).norm()) < 2e-3, "mean orientation differs");
  near(message(c, "Quaternion standard deviation"), { want.q_stat.stdev }, "deviation of the orientation");
  if (noise > 0)
    c.check(s.norm() > 0, "harness: no deviation");
}

PBT(C35, validation, "pictures without target among those with it", 250, 8000)
{
  Dir d;
  clearParams();
  const Grid g = grid(c, 4, 6, 0.02, 0.1);
  CameraIntrinsics k = camera(c), used = k;
  // lengths in metres: the verdict has absolute limits
  const double spoilt = c.b() ? 0.0 : c.logr(1e-4, 1e-2);
  used.fx() *= 1 + spoilt, used.cx() += 50 * spoilt;
  const double noise = c.b() ? 0.0 : c.logr(1e-4, 0.1);
  const Isometry3d cam = iso(anyRot(c), vec(c, 1)), tgt = iso(anyRot(c), vec(c, 2));
  Observation2D3D::Set obs;
  std::vector<Entry> e;
  const int n = c.i(4, 8);
  for (int i = 0; i < n; ++i)
  {
    const Matrix3d r = facing(c, 0.2, 0.7, M_PI);
    const Isometry3d ct = iso(r, Vector3d(c.r(-0.2, 0.2) * g.size, c.r(-0.2, 0.2) * g.size, g.size * c.r(2, 4)) - r * g.centre);
    Entry x;
    x.id = i;
    x.image = image(c, i);
    x.pose = tgt * ct.inverse() * cam.inverse();
    const Seen::Kind kind = anyKind(c);
    Observation2D3D o;
    o.correspondence_set = see(c, g, ct, [&](const Vector3d& y) { return refProject(k, y); }, noise, kind, false);
    o.to_camera_mount = x.pose;
    o.to_target_mount = Isometry3d::Identity();
    if (kind == Seen::FEATURES)
      obs.push_back(o);
    e.push_back(x);
  }
  if (obs.size() < 2)
    c.discard();
  setParam("data_path", writeSet(c, d.path + "/set", e));
  setParam("target_finder", finderParam(g.scale));
  setParam("intrinsics", intrParam(used));
  setParam("wrist_to_camera_guess", poseParam(cam));
  setParam("base_to_target_guess", poseParam(tgt));
  c.note("pictures", n);
  c.note("noise", noise);
  c.note("spoilt", spoilt);
  c.nontrivial(int(obs.size()) < n);
  bool refused = false;
  IntrinsicCalibrationAccuracyResult want;
  try
  {
    want = measureIntrinsicCalibrationAccuracy(obs, used, cam, tgt, Isometry3d::Identity(), 1.0);
  }
  catch (const std::exception&)
  {
    refused = true;
  }
  const Run r = run(c, "camera_intrinsic_calibration_validation");
  c.label(refused ? "refused" : "measured");
  if (refused)
  {
    c.check(r.code != 0, "program reports success although the accuracy cannot be measured");
    return;
  }
  if (r.code != 0)
    c.fail("program failed: " + error());
  auto both = [&](const std::string& what, const std::pair<double, double>& w, double abs) {
    const std::vector<double> v = message(c, what);
    c.check(v.size() >= 2, what + ": mean and deviation not reported");
    number(c, v[0], w.first, abs, what + " mean");
    number(c, v[1], w.second, abs, what + " deviation");
  };
  both("Positional Error:", want.pos_error, 1e-6 * g.size);
  both("Angular Error:", want.ang_error, 1e-6);
  // one millimetre and 0.05 degrees for about 95 % of the views
  const double p = want.pos_error.first + 2 * want.pos_error.second, a = want.ang_error.first + 2 * want.ang_error.second, pm = 1e-3, am = 0.05 * M_PI / 180;
  if (std::abs(p - pm) < 1e-3 * pm || std::abs(a - am) < 1e-3 * am)
    return;
  const bool bad = p > pm || a > am;
  c.label(bad ? "not valid" : "valid");
  bool saysBad = false, saysGood = false;
  for (auto& l : rosshim::log().lines)
  {
    saysBad = saysBad || l.second.find("not within tolerance") != std::string::npos;
    saysGood = saysGood || l.second.find("is valid") != std::string::npos;
  }
  c.check(saysBad == bad && saysGood == !bad, bad ? "calibration out of tolerance called valid" : "calibration within tolerance called invalid");
}

PBT(C35, refused, "a parameter is missing or malformed, or no picture shows the target", 300, 8000)
{
  Dir d;
  const Intr s = intrinsics(c, d);
  const int tool = c.i(0, 3);
  // the other programs need some of the same and some more
  static const char* names[] = { "intrinsic_calibration", "solve_pnp", "noise_qualification_2d", "camera_intrinsic_calibration_validation" };
  if (tool == 1)
  {
    dropParam("data_path");
    setParam("image_path", d.path + "/set/i0.bmp");
    finder().seen[0].kind = Seen::FEATURES;
  }
  else if (tool == 2)
  {
    setParam("data_path", d.path + "/set");
    setParam("data_file", d.path + "/set/set.yaml");
    setParam("camera_to_target_guess", poseParam(iso(expSO3(Vector3d(M_PI, 0, 0)), Vector3d(0, 0, 1))));
  }
  else if (tool == 3)
  {
    setParam("wrist_to_camera_guess", poseParam(iso(expSO3(Vector3d(M_PI, 0, 0)), Vector3d(0, 0, 1))));
    setParam("base_to_target_guess", poseParam(Isometry3d::Identity()));
  }
  const std::string what = std::string(names[tool]) + ": " + spoil(c, s.g);
  c.note("what", what);
  c.label(names[tool]);
  c.nontrivial();
  const Run r = run(c, names[tool]);
  c.check(r.code != 0, "program reports success although: " + what);
}
