// C34: the multi-camera programs solve exactly what their data sets hold.
#include "tools.h"
#include <rct_optimizations/experimental/multi_camera_pnp.h>
#include <rct_optimizations/extrinsic_multi_static_camera.h>
#include <rct_optimizations/extrinsic_multi_static_camera_only.h>
#include <rct_optimizations/extrinsic_multi_static_camera_wrist_only.h>
#include <ros/console.h>
using namespace tools;
using namespace rct_optimizations;

namespace
{
enum Tool
{
  JOINT,
  STEPS,
  PNP
};
const char* const PROGRAM[] = { "multi_static_camera_extrinsic", "multi_static_camera_multi_step_extrinsic", "solve_multi_camera_pnp" };
struct Shot
{
  bool found = false;
  cv::Mat image;
  Correspondence2D3D::Set corr;
};
struct Setup
{
  Tool tool = JOINT;
  std::vector<CameraIntrinsics> k;
  Poses cam, camGuess;
  Isometry3d tgt, tgtGuess;
  Poses pose;                           // of the wrist (or of the target) for each picture
  std::vector<std::vector<Shot>> shot;  // by camera and picture
  bool fix = true;
  double noise = 0, len = 1, scale = 1;
  std::size_t used() const
  {
    std::size_t n = 0;
    for (std::size_t i = 0; i < pose.size(); ++i)
      n += all(i);
    return n;
  }
  bool all(std::size_t i) const
  {
    for (auto& s : shot)
      if (i >= s.size() || !s[i].found)
        return false;
    return true;
  }
};
std::string key(std::size_t cam, const std::string& k) { return "camera_" + std::to_string(cam) + "/" + k; }
Setup make(Case& c, const Dir& d, Tool tool)
{
  Setup s;
  s.tool = tool;
  Finder& f = finder();
  f.points.clear();
  f.seen.clear();
  const int nx = c.i(3, 5), ny = c.i(3, 5);
  const double pitch = c.r(0.02, 0.2);
  s.scale = c.pick({ 1.0, 0.5, 2.0 });
  for (int y = 0; y < ny; ++y)
    for (int x = 0; x < nx; ++x)
      f.points.push_back(Vector3d(pitch * x, pitch * y, 0));
  const double size = pitch * s.scale * std::max(nx - 1, ny - 1);
  const Vector3d centre(pitch * s.scale * (nx - 1) / 2.0, pitch * s.scale * (ny - 1) / 2.0, 0);
  s.len = 4 * size;
  s.noise = c.b() ? 0.0 : c.r(0.02, 0.4);
  const int cams = tool == PNP ? c.i(1, 3) : c.i(2, 4), n = tool == PNP ? c.i(1, 6) : c.i(6, 9);
  // the cameras stand around the place where the target is moved
  const Isometry3d place = iso(anyRot(c), vec(c, 2 * s.len));
  for (int k = 0; k < cams; ++k)
  {
    const Matrix3d r = expSO3(Vector3d(c.r(-0.5, 0.5), c.r(-0.5, 0.5), c.r(-M_PI, M_PI)));
    s.cam.push_back(place * iso(r, r * Vector3d(0, 0, -s.len * c.r(0.8, 1.2))));
    CameraIntrinsics i;
    i.fx() = c.r(150, 260), i.fy() = i.fx() * c.r(0.9, 1.1), i.cx() = c.r(70, 90), i.cy() = c.r(50, 70);
    s.k.push_back(i);
    // a camera of several may miss the last pictures altogether (the joint calibration keeps the poses per camera)
    s.shot.emplace_back();
  }
  s.tgt = iso(anyRot(c), vec(c, s.len));
  s.fix = c.b();
  Poses bt;
  for (int i = 0; i < n; ++i)
  {
    const double az = c.r(-M_PI, M_PI), tilt = c.r(0.1, 0.7);
    const Matrix3d r = expSO3(Vector3d(std::cos(az), std::sin(az), 0) * tilt) * expSO3(Vector3d(0, 0, c.r(-M_PI, M_PI))) * expSO3(Vector3d(M_PI, 0, 0));
    bt.push_back(place * iso(r, vec(c, 0.25 * size) - r * centre));
    s.pose.push_back(tool == PNP ? bt.back() : bt.back() * s.tgt.inverse());
    if (tool == PNP)
      s.pose.back() = perturb(c, s.pose.back(), 0.05, 0.03 * s.len);
  }
  int id = 0;
  for (int k = 0; k < cams; ++k)
  {
    std::vector<Entry> entries;
    const int m = tool != STEPS && k > 0 && c.b(1, 4) ? std::max(1, n - c.i(1, 3)) : n;
    if (m < n)
      c.label("camera with fewer pictures");
    for (int i = 0; i < m; ++i, ++id)
    {
      Entry e;
      e.id = id;
      e.pose = s.pose[std::size_t(i)];
      e.image = image(c, id);
      Seen see;
      Shot sh;
      sh.image = e.image;
      const int kind = c.i(0, 11);
      const bool some = c.b(1, 3);
      for (std::size_t q = 0; q < f.points.size(); ++q)
      {
        if (some && q > 5 && c.b(1, 3))
          continue;
        const Vector3d x = f.points[q] * s.scale;
        const Vector2d uv = refProject(s.k[std::size_t(k)], s.cam[std::size_t(k)].inverse() * bt[std::size_t(i)] * x) + Vector2d(c.r(-1, 1), c.r(-1, 1)) * s.noise;
        see.features[unsigned(q)].push_back(uv);
        Correspondence2D3D y;
        y.in_image = uv;
        y.in_target = x;
        sh.corr.push_back(y);
      }
      sh.found = kind < 10;
      if (kind == 10)
        see.kind = Seen::THROWS, c.label("image:not found");
      if (kind == 11)
        see.kind = Seen::NOTHING, c.label("image:empty");
      f.seen.push_back(see);
      s.shot.back();
      s.shot[std::size_t(k)].push_back(sh);
      entries.push_back(e);
    }
    setParam(key(std::size_t(k), "data_path"), writeSet(c, d.path + "/" + std::to_string(k), entries));
  }
  for (int k = 0; k < cams; ++k)
  {
    const bool keep = tool == PNP || (tool == STEPS && s.fix && k == 0);
    s.camGuess.push_back(keep ? s.cam[std::size_t(k)] : perturb(c, s.cam[std::size_t(k)], 0.05, 0.03 * s.len));
    setParam(key(std::size_t(k), "intrinsics"), intrParam(s.k[std::size_t(k)]));
    setParam(key(std::size_t(k), tool == PNP ? "base_to_camera" : "base_to_camera_guess"), poseParam(s.camGuess.back()));
  }
  s.tgtGuess = perturb(c, s.tgt, 0.05, 0.03 * s.len);
  setParam("num_of_cameras", cams);
  setParam("target_finder", finderParam(s.scale));
  if (tool != PNP)
    setParam("wrist_to_target_guess", poseParam(s.tgtGuess));
  if (tool == STEPS)
    setParam("fix_first_camera", s.fix);
  c.note("cameras", cams);
  c.note("pictures", n);
  c.note("noise", s.noise);
  c.note("fix", s.fix);
  return s;
}
void results(Case& c, const Run& r, std::size_t& l, bool converged, double c0, double c1, const std::string& what)
{
  l = find(c, r, "Did converge?", l);
  c.check(numbers(r.lines[l]) == std::vector<double>{ converged ? 1.0 : 0.0 }, what + ": convergence misreported");
  number(c, numbers(r.lines[l = find(c, r, "Initial cost?", l)]).at(0), std::sqrt(c0), 1e-4 * std::sqrt(c0) + 1e-5, what + ": initial cost");
  number(c, numbers(r.lines[l = find(c, r, "Final cost?", l)]).at(0), std::sqrt(c1), 1e-4 * std::sqrt(c1) + 1e-5, what + ": final cost");
}
struct Section
{
  std::size_t picture;  // as in the data sets
  Isometry3d target;    // base to target before
  std::vector<std::size_t> cams;
};
// "REPROJECT IMAGE ..." sections, one per picture, with the frames displayed before and after
void sections(Case& c, const Setup& s, const Run& r, std::size_t from, const std::vector<Section>& want, const Poses& cam, double rot, double tr)
{
  std::vector<std::size_t> at;
  for (std::size_t i = from; i < r.lines.size(); ++i)
    if (r.lines[i].find("REPROJECT IMAGE") != std::string::npos)
      at.push_back(i);
  if (at.size() != want.size())
    c.fail(std::to_string(at.size()) + " pictures analysed instead of " + std::to_string(want.size()));
  std::vector<cv::Mat> before, after;
  for (auto& x : shown())
    if (x.window == "repr_before")
      before.push_back(x.frame);
    else if (x.window == "repr_after")
      after.push_back(x.frame);
  c.check(before.size() == want.size() && after.size() == want.size(), "not every analysed picture is displayed before and after");
  for (std::size_t q = 0; q < want.size(); ++q)
  {
    const Section& w = want[q];
    const std::string what = "picture " + std::to_string(w.picture);
    const std::vector<double> n = numbers(r.lines[at[q]].substr(r.lines[at[q]].find("REPROJECT IMAGE")));
    c.check(n.size() == 1 && n[0] == double(w.picture), what + ": analysed under another number: " + r.lines[at[q]]);
    MultiCameraPnPProblem p;
    p.base_to_target_guess = w.target;
    std::vector<Vector3d> pts;
    for (std::size_t k : w.cams)
    {
      p.base_to_camera.push_back(cam[k]);
      p.intr.push_back(s.k[k]);
      p.image_observations.push_back(s.shot[k][w.picture].corr);
      for (auto& x : s.shot[k][w.picture].corr)
        pts.push_back(x.in_target);
    }
    const MultiCameraPnPResult m = optimize(p);
    std::size_t l = at[q];
    results(c, r, l, m.converged, m.initial_cost_per_obs, m.final_cost_per_obs, what);
    // distance between the two estimates of the target
    const std::size_t dl = find(c, r, "DELTA S", l), da = find(c, r, "DELTA A", l);
    if (q + 1 < at.size())
      c.check(da < at[q + 1], what + ": no difference printed");
    const bool inCamera = s.tool != PNP;
    const Isometry3d a = (inCamera ? cam[w.cams[0]].inverse() : Isometry3d::Identity()) * w.target, b = (inCamera ? cam[w.cams[0]].inverse() : Isometry3d::Identity()) * m.base_to_target;
    number(c, numbers(r.lines[dl]).at(0), (a.translation() - b.translation()).norm(), tr, what + ": distance to the single estimate");
    number(c, numbers(r.lines[da]).at(0), rotDiff(a, b) * 180 / M_PI, 60 * rot, what + ": angle to the single estimate");
    std::vector<Vector2d> p0, p1;
    for (auto& x : pts)
    {
      p0.push_back(refProject(s.k[w.cams[0]], cam[w.cams[0]].inverse() * w.target * x));
      p1.push_back(refProject(s.k[w.cams[0]], cam[w.cams[0]].inverse() * m.base_to_target * x));
    }
    const cv::Mat& im = s.shot[w.cams[0]][w.picture].image;
    frame(c, before[q], im, p0, cv::Scalar(0, 0, 255), what + " before");
    frame(c, after[q], im, p1, cv::Scalar(0, 255, 0), what + " after");
  }
}
std::string error() { return rosshim::log().lines.empty() ? std::string() : rosshim::log().lines.back().second; }
void cameras(Case& c, const Run& r, std::size_t from, const Poses& want, const std::string& base, const std::string& rel, double rot, double tr)
{
  std::size_t l = from;
  for (std::size_t k = 0; k < want.size(); ++k)
  {
    const std::string n = "camera_" + std::to_string(k);
    l = find(c, r, base + " (" + n + "):", l);
    tools::pose(c, transform(c, r, l), want[k], rot, tr, n);
    l = find(c, r, rel, l + 1);
    tools::pose(c, transform(c, r, l), want[0].inverse() * want[k], rot, tr, n + " seen from camera 0");
  }
}
}  // namespace

PBT(C34, joint, "joint calibration of cameras of which some miss the target in some pictures", 250, 8000)
{
  Dir d;
  clearParams();
  const Setup s = make(c, d, JOINT);
  ExtrinsicMultiStaticCameraMovingTargetProblem p;
  p.intr = s.k;
  p.base_to_camera_guess = s.camGuess;
  p.wrist_to_target_guess = s.tgtGuess;
  p.wrist_poses.resize(s.k.size());
  p.image_observations.resize(s.k.size());
  bool missing = false;
  for (std::size_t k = 0; k < s.k.size(); ++k)
    for (std::size_t i = 0; i < s.shot[k].size(); ++i)
      if (s.shot[k][i].found)
      {
        p.wrist_poses[k].push_back(s.pose[i]);
        p.image_observations[k].push_back(s.shot[k][i].corr);
      }
      else
        missing = true;
  for (auto& o : p.image_observations)
    if (o.size() < 4)
      c.discard();
  c.nontrivial(missing);
  const ExtrinsicMultiStaticCameraMovingTargetResult want = optimize(p);
  if (!want.converged)
    c.discard();
  const Run r = run(c, PROGRAM[JOINT]);
  if (r.code != 0)
    c.fail("program failed: " + error());
  const double rot = 2e-5, tr = 2e-5 * s.len;
  std::size_t l = 0;
  results(c, r, l, want.converged, want.initial_cost_per_obs, want.final_cost_per_obs, "calibration");
  l = find(c, r, "WRIST TO TARGET:", l);
  tools::pose(c, transform(c, r, l), want.wrist_to_target, rot, tr, "target");
  cameras(c, r, l, want.base_to_camera, "BASE TO CAMERA", "CAMERA 0 TO CAMERA", rot, tr);
  if (s.noise == 0)
  {
    tools::pose(c, transform(c, r, l), s.tgt, 2e-4, 1e-3 * s.len, "target (truth)");
    for (std::size_t k = 0; k < s.cam.size(); ++k)
      tools::pose(c, transform(c, r, find(c, r, "BASE TO CAMERA (camera_" + std::to_string(k) + "):")), s.cam[k], 2e-4, 1e-3 * (s.len + s.cam[k].translation().norm()), "camera (truth)");
  }
  std::vector<Section> sec;
  for (std::size_t i = 0; i < s.shot[0].size(); ++i)
  {
    Section w;
    w.picture = i;
    w.target = s.pose[i] * want.wrist_to_target;
    for (std::size_t k = 0; k < s.k.size(); ++k)
      if (i < s.shot[k].size() && s.shot[k][i].found)
        w.cams.push_back(k);
    if (w.cams.size() > 1)
      sec.push_back(w);
  }
  sections(c, s, r, l, sec, want.base_to_camera, rot, tr);
}

PBT(C34, two_steps, "cameras first, wrist second, with pictures that not every camera sees", 250, 8000)
{
  Dir d;
  clearParams();
  const Setup s = make(c, d, STEPS);
  if (s.used() < 5)
    c.discard();
  c.nontrivial(s.used() < s.pose.size());
  ExtrinsicMultiStaticCameraOnlyProblem p;
  p.intr = s.k;
  p.base_to_camera_guess = s.camGuess;
  p.fix_first_camera = s.fix;
  p.image_observations.resize(s.k.size());
  ExtrinsicMultiStaticCameraMovingTargetWristOnlyProblem w;
  std::vector<std::size_t> pics;
  for (std::size_t i = 0; i < s.pose.size(); ++i)
    if (s.all(i))
    {
      pics.push_back(i);
      p.base_to_target_guess.push_back(s.pose[i] * s.tgtGuess);
      w.wrist_poses.push_back(s.pose[i]);
      for (std::size_t k = 0; k < s.k.size(); ++k)
        p.image_observations[k].push_back(s.shot[k][i].corr);
    }
  const ExtrinsicMultiStaticCameraOnlyResult a = optimize(p);
  w.intr = s.k;
  w.wrist_to_target_guess = s.tgtGuess;
  w.image_observations = p.image_observations;
  w.base_to_camera_guess = a.base_to_camera;
  const ExtrinsicMultiStaticCameraMovingTargetWristOnlyResult b = optimize(w);
  if (!a.converged || !b.converged)
    c.discard();
  const Run r = run(c, PROGRAM[STEPS]);
  if (r.code != 0)
    c.fail("program failed: " + error());
  const double rot = 2e-5, tr = 2e-5 * s.len;
  std::size_t l = 0;
  results(c, r, l, a.converged, a.initial_cost_per_obs, a.final_cost_per_obs, "first step");
  // without a fixed camera the base frame is free: only what does not depend on it is comparable to the last digit
  const bool free = !s.fix;
  cameras(c, r, l, a.base_to_camera, "Base To Camera", "Camera 0 to Camera", free ? 1e-3 : rot, free ? 1e-3 * s.len : tr);
  const std::size_t step = find(c, r, "wrist only", l);
  std::size_t l2 = step;
  results(c, r, l2, b.converged, b.initial_cost_per_obs, b.final_cost_per_obs, "second step");
  const std::size_t t = find(c, r, "Wrist to Target:", l2);
  tools::pose(c, transform(c, r, t), b.wrist_to_target, rot, tr, "target");
  cameras(c, r, t, b.base_to_camera, "Base To Camera", "Camera 0 to Camera", rot, tr);
  if (s.noise == 0)
    tools::pose(c, transform(c, r, t), s.tgt, 2e-4, 1e-3 * s.len, "target (truth)");
  std::vector<Section> sec;
  for (std::size_t i : pics)
  {
    Section q;
    q.picture = i;
    q.target = s.pose[i] * b.wrist_to_target;
    for (std::size_t k = 0; k < s.k.size(); ++k)
      q.cams.push_back(k);
    sec.push_back(q);
  }
  sections(c, s, r, t, sec, b.base_to_camera, rot, tr);
}

PBT(C34, locate, "several cameras or pictures; the target is seen by all cameras in some", 300, 10000)
{
  Dir d;
  clearParams();
  const Setup s = make(c, d, PNP);
  c.nontrivial(s.pose.size() > 1 && s.used() > 0);
  const Run r = run(c, PROGRAM[PNP]);
  if (r.code != 0)
    c.fail("program failed: " + error());
  std::vector<Section> sec;
  for (std::size_t i = 0; i < s.pose.size(); ++i)
    if (s.all(i))
    {
      Section q;
      q.picture = i;
      q.target = s.pose[i];
      for (std::size_t k = 0; k < s.k.size(); ++k)
        q.cams.push_back(k);
      sec.push_back(q);
    }
  sections(c, s, r, 0, sec, s.cam, 2e-5, 2e-5 * s.len);
}

PBT(C34, refused, "a parameter is missing or malformed, or a data set is missing", 300, 8000)
{
  Dir d;
  clearParams();
  const Tool tool = c.pick({ JOINT, STEPS, PNP });
  const Setup s = make(c, d, tool);
  const std::vector<std::string> keys = paramKeys();
  const std::string k = c.pick(keys);
  std::string what;
  switch (c.i(0, 3))
  {
    case 0:
      dropParam(k);
      what = k + " missing";
      break;
    case 1:
      setParam(k, k == "fix_first_camera" ? XmlRpcValue("x") : XmlRpcValue(true));
      what = k + " of another type";
      break;
    case 2:
    {
      const std::string p = key(c.draw(s.k.size()), "data_path");
      setParam(p, std::string(getParam(p)) + "x");
      what = "data set does not exist";
      break;
    }
    default:
    {
      XmlRpcValue v = finderParam(s.scale);
      v["type"] = "verif::None";
      setParam("target_finder", v);
      what = "unknown target finder";
    }
  }
  c.note("what", what);
  c.nontrivial();
  const Run r = run(c, PROGRAM[tool]);
  c.check(r.code != 0, "program reports success although: " + what);
  c.check(!has(r, "WRIST TO TARGET:") && !has(r, "Wrist to Target:") && !has(r, "REPROJECT IMAGE"), "a result is printed although: " + what);
}
