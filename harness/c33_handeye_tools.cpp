// C33: the hand-eye calibration programs solve exactly the usable part of the data set they are pointed at.
#include "tools.h"
#include <rct_optimizations/extrinsic_hand_eye.h>
#include <rct_optimizations/pnp.h>
#include <rct_optimizations/validation/homography_validation.h>
#include <ros/console.h>
using namespace tools;
using namespace rct_optimizations;

namespace
{
struct View
{
  Isometry3d wrist;
  Correspondence2D3D::Set corr;
  bool usable = true;
  cv::Mat image;
};
struct Setup
{
  bool onWrist = true;
  CameraIntrinsics k;
  Isometry3d cam, tgt, camGuess, tgtGuess;  // mounts to camera and target
  std::vector<View> views;                  // those that can be loaded
  double threshold = 0, len = 1, noise = 0, scale = 1;
  std::string list;
};
double meanError(const Correspondence2D3D::Set& s, unsigned seed)
{
  RandomCorrespondenceSampler sampler(s.size(), s.size() / 3, seed);
  return calculateHomographyError(s, sampler).mean();
}
// a data set on disk with everything the program needs on the parameter server
Setup make(Case& c, const Dir& d)
{
  Setup s;
  s.onWrist = c.b();
  c.label(s.onWrist ? "camera on wrist" : "static camera");
  Finder& f = finder();
  f.points.clear();
  f.seen.clear();
  const int nx = c.i(4, 7), ny = c.i(4, 7);
  const double pitch = c.r(0.02, 0.2);
  s.scale = c.pick({ 1.0, 0.5, 2.0, 1.7 });
  for (int y = 0; y < ny; ++y)
    for (int x = 0; x < nx; ++x)
      f.points.push_back(Vector3d(pitch * x, pitch * y, 0));
  const double size = pitch * s.scale * std::max(nx - 1, ny - 1);
  const Vector3d centre(pitch * s.scale * (nx - 1) / 2.0, pitch * s.scale * (ny - 1) / 2.0, 0);
  s.len = 3 * size;
  s.k.fx() = c.r(150, 220), s.k.fy() = s.k.fx() * c.r(0.9, 1.1), s.k.cx() = c.r(70, 90), s.k.cy() = c.r(50, 70);
  s.noise = c.b() ? 0.0 : c.r(0.02, 0.3);
  s.cam = iso(anyRot(c), vec(c, 2 * s.len));
  s.tgt = iso(anyRot(c), vec(c, 2 * s.len));
  std::vector<Entry> entries;
  const int n = c.i(7, 11);
  double good = 0, bad = 1e300;
  for (int i = 0; i < n; ++i)
  {
    Entry e;
    e.id = i;
    e.image = image(c, i);
    // camera to target
    const double az = c.r(-M_PI, M_PI), tilt = c.r(0.1, 0.8);
    const Matrix3d r = expSO3(Vector3d(std::cos(az), std::sin(az), 0) * tilt) * expSO3(Vector3d(0, 0, c.r(-M_PI, M_PI))) * expSO3(Vector3d(M_PI, 0, 0));
    const Vector3d at(c.r(-0.3, 0.3) * size, c.r(-0.3, 0.3) * size, size * c.r(2, 4));
    const Isometry3d ct = iso(r, at - r * centre);
    // base to wrist, moving the camera or the target
    e.pose = s.onWrist ? s.tgt * ct.inverse() * s.cam.inverse() : s.cam * ct * s.tgt.inverse();
    Seen see;
    View v;
    v.wrist = e.pose;
    v.image = e.image;
    const int kind = i < 5 ? 0 : c.i(2, 9);
    const bool some = c.b(1, 3);
    const int every = kind == 9 && c.b() ? c.i(4, 8) : 1;  // which features of a bad image are displaced
    for (std::size_t q = 0; q < f.points.size(); ++q)
    {
      if (some && see.features.size() + (f.points.size() - q) > 15 && c.b(1, 3))
        continue;
      const Vector3d x = f.points[q] * s.scale;
      Vector2d uv = refProject(s.k, ct * x) + Vector2d(c.r(-1, 1), c.r(-1, 1)) * s.noise;
      if (kind == 9 && int(q) % every == every / 2)
        uv += Vector2d(c.r(-80, 80), c.r(-80, 80));
      see.features[unsigned(q)].push_back(uv);
      Correspondence2D3D k;
      k.in_image = uv;
      k.in_target = x;
      v.corr.push_back(k);
    }
    static const char* names[] = { "image:used", "image:used", "image:used", "image:used", "image:used", "image:used", "image:missing", "image:not found", "image:empty", "image:bad homography" };
    if (i > 0)
      c.label(names[kind]);
    if (kind == 6 && i > 0)
    {
      e.fault = c.pick({ Entry::NO_IMAGE, Entry::NO_POSE, Entry::BAD_POSE });
      v.usable = false;
    }
    else if (kind == 7 || kind == 8)
      see.kind = kind == 7 ? Seen::THROWS : Seen::NOTHING, v.usable = false;
    else
      for (unsigned seed = 1; seed < 13; ++seed)
      {
        const double m = meanError(v.corr, seed);
        // undefined if the sample does not determine the map
        if (kind == 9)
          bad = std::min(bad, std::isnan(m) ? bad : m);
        else if (!std::isfinite(m))
          c.discard();
        else
          good = std::max(good, m);
      }
    v.usable = v.usable && kind != 9;
    if (!v.usable)
      // including it would be noticed
      e.pose = anyIso(c, 3 * s.len), v.wrist = e.pose;
    if (e.fault == Entry::NONE)
      s.views.push_back(v);
    f.seen.push_back(see);
    entries.push_back(e);
  }
  int usable = 0;
  for (auto& v : s.views)
    usable += v.usable;
  if (usable < 5 || !(bad > 8 * good + 1e-3))
    c.discard();
  // a threshold just above the mean error of the good images lies below the largest errors of their features
  const bool tight = s.noise > 0 && c.b();
  if (tight)
    c.label("tight threshold");
  s.threshold = tight ? 1.3 * good : bad < 1e300 ? std::max(std::sqrt(good * bad), bad / 1000) : 5 * good + 1.0;
  s.camGuess = perturb(c, s.cam, 0.06, 0.03 * s.len);
  s.tgtGuess = perturb(c, s.tgt, 0.06, 0.03 * s.len);
  s.list = writeSet(c, d.path, entries);
  clearParams();
  setParam("homography_threshold", s.threshold);
  setParam("intrinsics", intrParam(s.k));
  setParam("data_path", s.list);
  setParam("target_finder", finderParam(s.scale));
  if (s.onWrist)
  {
    setParam("wrist_to_camera_guess", poseParam(s.camGuess));
    setParam("base_to_target_guess", poseParam(s.tgtGuess));
  }
  else
  {
    setParam("base_to_camera_guess", poseParam(s.camGuess));
    setParam("wrist_to_target_guess", poseParam(s.tgtGuess));
  }
  c.note("views", n);
  c.note("usable", usable);
  c.note("noise", s.noise);
  c.note("threshold", s.threshold);
  return s;
}
std::string program(const Setup& s) { return s.onWrist ? "camera_on_wrist_extrinsic" : "static_camera_extrinsic"; }
}  // namespace

PBT(C33, calibrates, "data set with images that cannot be used among those that can", 500, 15000)
{
  Dir d;
  const Setup s = make(c, d);
  // the same problem, put together here
  ExtrinsicHandEyeProblem2D3D p;
  p.intr = s.k;
  p.camera_mount_to_camera_guess = s.camGuess;
  p.target_mount_to_target_guess = s.tgtGuess;
  for (auto& v : s.views)
  {
    if (v.usable)
    {
      Observation2D3D o;
      (s.onWrist ? o.to_camera_mount : o.to_target_mount) = v.wrist;
      (s.onWrist ? o.to_target_mount : o.to_camera_mount) = Isometry3d::Identity();
      o.correspondence_set = v.corr;
      p.observations.push_back(o);
    }
  }
  c.nontrivial(p.observations.size() < finder().seen.size());
  ExtrinsicHandEyeResult want;
  try
  {
    want = optimize(p);
  }
  catch (const std::exception&)
  {
    c.label("library refuses");
    c.discard();
  }
  if (!want.converged)
    c.discard();
  const Run r = run(c, program(s));
  if (r.code != 0)
    c.fail("program failed with code " + std::to_string(r.code) + ": " + (rosshim::log().lines.empty() ? "" : rosshim::log().lines.back().second));
  const bool exact = s.noise == 0;
  const double rot = 1e-5, tr = 1e-5 * s.len;
  c.check(numbers(r.lines[find(c, r, "Did converge?")]) == std::vector<double>{ 1 }, "not reported as converged");
  number(c, numbers(r.lines[find(c, r, "Initial cost?")]).at(0), std::sqrt(want.initial_cost_per_obs), 1e-4 * std::sqrt(want.initial_cost_per_obs) + 1e-8, "initial cost");
  number(c, numbers(r.lines[find(c, r, "Final cost?")]).at(0), std::sqrt(want.final_cost_per_obs), 1e-5, "final cost");
  const Isometry3d cam = transform(c, r, find(c, r, s.onWrist ? "WRIST TO CAMERA:" : "BASE TO CAMERA:"));
  const std::size_t th = find(c, r, s.onWrist ? "BASE TO TARGET:" : "WRIST_TO_TARGET:");
  const Isometry3d tgt = transform(c, r, th);
  tools::pose(c, cam, want.camera_mount_to_camera, rot, tr, "camera");
  tools::pose(c, tgt, want.target_mount_to_target, rot, tr, "target");
  if (exact)
  {
    tools::pose(c, cam, s.cam, 2e-4, 2e-4 * (s.len + s.cam.translation().norm()), "camera (truth)");
    tools::pose(c, tgt, s.tgt, 2e-4, 2e-4 * (s.len + s.tgt.translation().norm()), "target (truth)");
  }
  // error on the target plane
  std::vector<double> e, dp, da;
  std::vector<Isometry3d> cts;
  for (auto& o : p.observations)
  {
    const Isometry3d ct = want.camera_mount_to_camera.inverse() * o.to_camera_mount.inverse() * o.to_target_mount * want.target_mount_to_target;
    cts.push_back(ct);
    for (auto& k : o.correspondence_set)
    {
      const Vector3d ray((k.in_image.x() - s.k.values[2]) / s.k.values[0], (k.in_image.y() - s.k.values[3]) / s.k.values[1], 1);
      const Vector3d nrm = ct.linear().col(2);
      e.push_back((ct.inverse() * (ray * (nrm.dot(ct.translation()) / nrm.dot(ray))) - k.in_target).norm());
    }
    PnPProblem q;
    q.intr = s.k;
    q.camera_to_target_guess = ct;
    q.correspondences = o.correspondence_set;
    const Isometry3d t = optimize(q).camera_to_target;
    dp.push_back((ct.inverse() * t).translation().norm());
    da.push_back(rotDiff(ct, t) * 180 / M_PI);
  }
  auto mean = [](const std::vector<double>& v) {
    double m = 0;
    for (double x : v)
      m += x;
    return m / double(v.size());
  };
  auto dev = [&](const std::vector<double>& v, int less) {
    double q = 0;
    const double m = mean(v);
    for (double x : v)
      q += (x - m) * (x - m);
    return std::sqrt(q / double(v.size() - std::size_t(less)));
  };
  const double tol = 1e-5 * s.len;
  const std::size_t h3 = find(c, r, "3D reprojection error statistics");
  const std::vector<double> ms = numbers(r.lines[find(c, r, "Mean +/-", h3)]);
  c.check(ms.size() == 2, "mean and deviation of the error on the target not printed");
  number(c, ms[0], mean(e), tol, "mean error on the target");
  number(c, ms[1], dev(e, 1), tol, "deviation of the error on the target");
  number(c, numbers(r.lines[find(c, r, "Min (m)", h3)]).at(0), *std::min_element(e.begin(), e.end()), tol, "smallest error on the target");
  number(c, numbers(r.lines[find(c, r, "Max (m)", h3)]).at(0), *std::max_element(e.begin(), e.end()), tol, "largest error on the target");
  // comparison with single-view estimates
  std::size_t l = find(c, r, "Difference in camera to target transform", th);
  number(c, numbers(r.lines[l = find(c, r, "Mean (m)", l)]).at(0), mean(dp), tol, "mean position difference");
  number(c, numbers(r.lines[l = find(c, r, "Std. Dev. (m)", l)]).at(0), dev(dp, 0), tol, "deviation of the position difference");
  number(c, numbers(r.lines[l = find(c, r, "Mean (deg)", l)]).at(0), mean(da), 1e-3, "mean orientation difference");
  number(c, numbers(r.lines[find(c, r, "Std. Dev. (deg)", l)]).at(0), dev(da, 0), 1e-3, "deviation of the orientation difference");
  // displayed reprojections: one frame per used image, last
  c.check(shown().size() >= cts.size(), "not every used image is displayed with its reprojections");
  std::size_t i = shown().size() - cts.size(), o = 0;
  for (std::size_t v = 0; v < s.views.size(); ++v)
    if (s.views[v].usable)
    {
      std::vector<Vector2d> px;
      for (auto& k : p.observations[o].correspondence_set)
        px.push_back(refProject(s.k, cts[o] * k.in_target));
      frame(c, shown()[i + o].frame, s.views[v].image, px, cv::Scalar(0, 0, 255), "image " + std::to_string(v));
      ++o;
    }
}

PBT(C33, refused, "a parameter is missing or malformed, or the data set is missing or without usable images", 300, 8000)
{
  Dir d;
  Setup s = make(c, d);
  const std::vector<std::string> keys = paramKeys();
  const int how = c.i(0, 6);
  const std::string key = c.pick(keys);
  std::string what;
  switch (how)
  {
    case 0:
    case 1:
      dropParam(key);
      what = key + " missing";
      break;
    case 2:
      setParam(key, XmlRpcValue(true));
      what = key + " of another type";
      break;
    case 3:
    {
      XmlRpcValue v = getParam(key);
      if (v.getType() != XmlRpcValue::TypeStruct || key == "target_finder")
        c.discard();
      std::vector<std::string> f;
      for (auto& m : v)
        f.push_back(m.first);
      const std::string drop = c.pick(f);
      XmlRpcValue w;
      for (auto& m : v)
        if (m.first != drop)
          w[m.first] = m.second;
      setParam(key, w);
      what = key + " without " + drop;
      break;
    }
    case 4:
      setParam("data_path", s.list + "x");
      what = "data set does not exist";
      break;
    case 5:
    {
      XmlRpcValue v = finderParam(s.scale);
      v["type"] = "verif::None";
      setParam("target_finder", v);
      what = "unknown target finder";
      break;
    }
    default:
      for (auto& x : finder().seen)
        x.kind = Seen::THROWS;
      what = "no usable image";
  }
  c.note("what", what);
  c.label(std::to_string(how));
  c.nontrivial();
  const Run r = run(c, program(s));
  c.check(r.code != 0, "program reports success although: " + what);
  c.check(!has(r, "WRIST TO CAMERA:") && !has(r, "BASE TO CAMERA:"), "a calibration is printed although: " + what);
}
