#include "scene.h"
#include <cstring>
#include <rct_optimizations/experimental/multi_camera_pnp.h>
#include <rct_optimizations/extrinsic_hand_eye.h>
#include <rct_optimizations/extrinsic_multi_static_camera.h>
#include <rct_optimizations/extrinsic_multi_static_camera_only.h>
#include <rct_optimizations/extrinsic_multi_static_camera_wrist_only.h>
#include <rct_optimizations/pnp.h>
using namespace rct_optimizations;
namespace scene
{
static Correspondence2D3D::Set set2(const View& v)
{
  Correspondence2D3D::Set s;
  for (auto& q : v.corr)
    s.push_back(Correspondence2D3D(q.obs.head<2>(), q.pt));
  return s;
}
static Correspondence3D3D::Set set3(const View& v)
{
  Correspondence3D3D::Set s;
  for (auto& q : v.corr)
    s.push_back(Correspondence3D3D(q.obs, q.pt));
  return s;
}
static std::vector<std::vector<Correspondence2D3D::Set>> grid(const Scene& s)
{
  std::vector<std::vector<Correspondence2D3D::Set>> g(s.nCams());
  for (auto& x : g)
    x.resize(s.nTargets);
  for (auto& v : s.views)
    g[v.cam][v.idx] = set2(v);
  return g;
}
static void dump(std::vector<double>& d, double x) { d.push_back(x); }
static void dump(std::vector<double>& d, const Isometry3d& x) { d.insert(d.end(), x.data(), x.data() + 16); }
static void dump(std::vector<double>& d, const CameraIntrinsics& x)
{
  for (double q : { x.fx(), x.fy(), x.cx(), x.cy() })
    d.push_back(q);
}
static void dump(std::vector<double>& d, const Correspondence2D3D& x)
{
  d.insert(d.end(), x.in_image.data(), x.in_image.data() + 2);
  d.insert(d.end(), x.in_target.data(), x.in_target.data() + 3);
}
static void dump(std::vector<double>& d, const Correspondence3D3D& x)
{
  d.insert(d.end(), x.in_image.data(), x.in_image.data() + 3);
  d.insert(d.end(), x.in_target.data(), x.in_target.data() + 3);
}
template <class T, class A>
static void dump(std::vector<double>& d, const std::vector<T, A>& x);
template <Eigen::Index D>
static void dump(std::vector<double>& d, const Observation<D, 3>& x)
{
  dump(d, x.to_camera_mount);
  dump(d, x.to_target_mount);
  dump(d, x.correspondence_set);
}
template <class T, class A>
static void dump(std::vector<double>& d, const std::vector<T, A>& x)
{
  d.push_back(double(x.size()));
  for (auto& q : x)
    dump(d, q);
}
static bool g_modified = false;
// the solver's answer, watching that it leaves the listed fields of the problem alone
template <class P, class... F>
static auto run(P& p, const F&... f)
{
  auto fields = [&] {
    std::vector<double> d;
    (dump(d, f), ...);
    return d;
  };
  const auto before = fields();
  auto r = optimize(p);
  const auto after = fields();
  g_modified = before.size() != after.size() || memcmp(before.data(), after.data(), before.size() * sizeof(double)) != 0;
  return r;
}
template <class R>
static Out base(const R& r)
{
  Out o;
  o.modified = g_modified;
  o.converged = r.converged;
  o.c0 = r.initial_cost_per_obs;
  o.c1 = r.final_cost_per_obs;
  return o;
}
Out solve(const Scene& s)
{
  switch (s.kind)
  {
    case PNP2: {
      PnPProblem p;
      p.intr = s.intr[0];
      p.correspondences = set2(s.views[0]);
      p.camera_to_target_guess = s.guess[0];
      if (!s.names.empty())
        p.label_camera_to_target_guess = s.names[0];
      auto r = run(p, p.intr, p.correspondences, p.camera_to_target_guess);
      Out o = base(r);
      o.poses = { r.camera_to_target };
      o.prefix = { p.label_camera_to_target_guess };
      o.cov = r.covariance;
      return o;
    }
    case PNP3: {
      PnPProblem3D p;
      p.correspondences = set3(s.views[0]);
      p.camera_to_target_guess = s.guess[0];
      if (!s.names.empty())
        p.label_camera_to_target_guess = s.names[0];
      auto r = run(p, p.correspondences, p.camera_to_target_guess);
      Out o = base(r);
      o.poses = { r.camera_to_target };
      o.prefix = { p.label_camera_to_target_guess };
      o.cov = r.covariance;
      return o;
    }
    case HE2: {
      ExtrinsicHandEyeProblem2D3D p;
      p.intr = s.intr[0];
      for (auto& v : s.views)
      {
        Observation2D3D ob(v.A, v.B);
        ob.correspondence_set = set2(v);
        p.observations.push_back(ob);
      }
      p.camera_mount_to_camera_guess = s.guess[0];
      p.target_mount_to_target_guess = s.guess[1];
      if (!s.names.empty())
      {
        p.label_camera_mount_to_camera = s.names[0];
        p.label_target_mount_to_target = s.names[1];
      }
      auto r = run(p, p.intr, p.observations, p.camera_mount_to_camera_guess, p.target_mount_to_target_guess);
      Out o = base(r);
      o.poses = { r.camera_mount_to_camera, r.target_mount_to_target };
      o.prefix = { p.label_camera_mount_to_camera, p.label_target_mount_to_target };
      o.cov = r.covariance;
      return o;
    }
    case HE3: {
      ExtrinsicHandEyeProblem3D3D p;
      for (auto& v : s.views)
      {
        Observation3D3D ob(v.A, v.B);
        ob.correspondence_set = set3(v);
        p.observations.push_back(ob);
      }
      p.camera_mount_to_camera_guess = s.guess[0];
      p.target_mount_to_target_guess = s.guess[1];
      if (!s.names.empty())
      {
        p.label_camera_mount_to_camera = s.names[0];
        p.label_target_mount_to_target = s.names[1];
      }
      auto r = run(p, p.observations, p.camera_mount_to_camera_guess, p.target_mount_to_target_guess);
      Out o = base(r);
      o.poses = { r.camera_mount_to_camera, r.target_mount_to_target };
      o.prefix = { p.label_camera_mount_to_camera, p.label_target_mount_to_target };
      o.cov = r.covariance;
      return o;
    }
    case MSC: {
      ExtrinsicMultiStaticCameraMovingTargetProblem p;
      p.intr = s.intr;
      p.wrist_poses.resize(s.nCams());
      p.image_observations.resize(s.nCams());
      for (auto& v : s.views)
      {
        p.wrist_poses[v.cam].push_back(v.B);
        p.image_observations[v.cam].push_back(set2(v));
      }
      p.base_to_camera_guess.assign(s.guess.begin(), s.guess.begin() + s.nCams());
      p.wrist_to_target_guess = s.guess.back();
      if (!s.names.empty())
      {
        p.label_base_to_camera = s.names[0];
        p.label_wrist_to_target = s.names[1];
      }
      auto r = run(p, p.intr, p.wrist_poses, p.image_observations, p.base_to_camera_guess, p.wrist_to_target_guess);
      Out o = base(r);
      for (auto& q : r.base_to_camera)
        o.poses.push_back(q);
      o.poses.push_back(r.wrist_to_target);
      o.cov = r.covariance;
      for (int k = 0; k < s.nCams(); ++k)
        o.prefix.push_back(p.label_base_to_camera + std::to_string(k));
      o.prefix.push_back(p.label_wrist_to_target);
      return o;
    }
    case MSCO: {
      ExtrinsicMultiStaticCameraOnlyProblem p;
      p.fix_first_camera = s.fixFirst;
      p.intr = s.intr;
      p.image_observations = grid(s);
      p.base_to_camera_guess.assign(s.guess.begin(), s.guess.begin() + s.nCams());
      p.base_to_target_guess.assign(s.guess.begin() + s.nCams(), s.guess.end());
      auto r = run(p, p.intr, p.image_observations, p.base_to_camera_guess, p.base_to_target_guess);
      Out o = base(r);
      for (auto& q : r.base_to_camera)
        o.poses.push_back(q);
      for (auto& q : r.base_to_target)
        o.poses.push_back(q);
      return o;
    }
    case MSCW: {
      ExtrinsicMultiStaticCameraMovingTargetWristOnlyProblem p;
      p.intr = s.intr;
      p.image_observations = grid(s);
      p.wrist_poses.resize(s.nTargets);
      for (auto& v : s.views)
        p.wrist_poses[v.idx] = v.B;
      p.base_to_camera_guess = s.camPose;
      p.wrist_to_target_guess = s.guess[1];
      auto r = run(p, p.intr, p.image_observations, p.wrist_poses, p.base_to_camera_guess, p.wrist_to_target_guess);
      Out o = base(r);
      o.group = r.base_to_camera;
      if (!o.group.empty())
        o.poses = { o.group[0] * s.camPose[0].inverse(), r.wrist_to_target };
      return o;
    }
    default: {
      MultiCameraPnPProblem p;
      p.intr = s.intr;
      p.base_to_camera = s.camPose;
      p.image_observations.resize(s.nCams());
      for (auto& v : s.views)
        p.image_observations[v.cam] = set2(v);
      p.base_to_target_guess = s.guess[0];
      auto r = run(p, p.intr, p.base_to_camera, p.image_observations, p.base_to_target_guess);
      Out o = base(r);
      o.poses = { r.base_to_target };
      return o;
    }
  }
}
}  // namespace scene
