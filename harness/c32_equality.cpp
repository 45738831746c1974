// C32: data objects equal their copies and differ after any single change, in both directions.
#include "geom.h"
#include <rct_optimizations/types.h>
#include <rct_optimizations/extrinsic_hand_eye.h>
using namespace geom;
using namespace rct_optimizations;

namespace
{
using Change = std::pair<std::string, std::function<void(Case&)>>;
using Changes = std::vector<Change>;

// A step that rounding cannot explain, relative to the size of what it is applied to
double step(Case& c, double size) { return (c.b() ? 1 : -1) * c.logr(c.b() ? 1e-8 : 1e-3, 10) * std::max(size, 1e-3); }

void number(Changes& l, const std::string& name, double& v, double size)
{
  l.emplace_back(name, [&v, size](Case& c) { v += step(c, size); });
}
template <class V>
void vector(Changes& l, const std::string& name, V& v)
{
  // any one element
  const double size = v.size() ? v.norm() : 0;
  for (Eigen::Index i = 0; i < v.size(); ++i)
    number(l, name + "[" + std::to_string(i) + "]", v(i), size);
}
void pose(Changes& l, const std::string& name, Isometry3d& p)
{
  const double size = p.translation().norm() + 1;
  for (int i = 0; i < 3; ++i)
    l.emplace_back(name + ".t" + std::to_string(i), [&p, i, size](Case& c) { p.translation()(i) += step(c, size); });
  l.emplace_back(name + ".rotation", [&p, size](Case& c) {
    p.linear() = p.linear() * expSO3(dir(c) * std::min(c.logr(c.b() ? 1e-8 : 2e-3, 3) * size, 3.0));
  });
}
template <class C>
void correspondences(Changes& l, const std::string& name, std::vector<C>& s)
{
  for (std::size_t i = 0; i < s.size(); ++i)
  {
    vector(l, name + "[" + std::to_string(i) + "].in_image", s[i].in_image);
    vector(l, name + "[" + std::to_string(i) + "].in_target", s[i].in_target);
  }
  l.emplace_back(name + ": one more", [&s](Case& c) {
    C extra;
    extra.in_image = extra.in_image.NullaryExpr([&](Eigen::Index) { return c.r(-5, 5); });
    s.insert(s.begin() + c.i(0, int(s.size())), extra);
  });
  if (!s.empty())
  {
    l.emplace_back(name + ": one repeated at the end", [&s](Case&) { s.push_back(C(s.back())); });
    l.emplace_back(name + ": one fewer", [&s](Case& c) { s.erase(s.begin() + c.i(0, int(s.size()) - 1)); });
  }
  l.emplace_back(name + ": two exchanged", [&s](Case& c) {
    if (s.size() < 2)
      c.discard();
    const std::size_t a = std::size_t(c.i(0, int(s.size()) - 1)), b = std::size_t(c.i(0, int(s.size()) - 1));
    if ((s[a].in_image - s[b].in_image).norm() < 1e-2 * (s[a].in_image.norm() + s[b].in_image.norm()) + 1e-3)
      c.discard();
    const C t = s[a];
    s[a] = s[b];
    s[b] = t;
  });
}
void joints(Changes& l, const std::string& name, VectorXd& v)
{
  vector(l, name, v);
  l.emplace_back(name + ": one more", [&v](Case& c) {
    const VectorXd old = v;
    v.resize(old.size() + 1);
    v << old, (c.b() ? 0.0 : c.r(-3, 3));
  });
  if (v.size())
    l.emplace_back(name + ": one fewer", [&v](Case&) { v = VectorXd(v.head(v.size() - 1)); });
}
template <class C>
std::vector<C> anySet(Case& c)
{
  std::vector<C> s(std::size_t(c.i(0, 6)));
  const double m = c.logr(1e-2, 1e3);
  for (C& k : s)
  {
    for (int i = 0; i < k.in_image.size(); ++i)
      k.in_image(i) = c.r(-m, m);
    for (int i = 0; i < k.in_target.size(); ++i)
      k.in_target(i) = c.b(1, 4) ? 0 : c.r(-1, 1);
  }
  return s;
}
VectorXd anyJoints(Case& c)
{
  VectorXd v(c.i(0, 7));
  for (int i = 0; i < v.size(); ++i)
    v(i) = c.b(1, 5) ? 0 : c.r(-3, 3);
  return v;
}

template <Eigen::Index D>
Correspondence<D, 3> make(Case& c, Correspondence<D, 3>*)
{
  Correspondence<D, 3> k;
  const double m = c.logr(1e-2, 1e3);
  for (int i = 0; i < D; ++i)
    k.in_image(i) = c.r(-m, m);
  k.in_target = vec(c, 2);
  return k;
}
template <Eigen::Index D>
void list(Changes& l, Correspondence<D, 3>& k)
{
  vector(l, "in_image", k.in_image);
  vector(l, "in_target", k.in_target);
}
template <Eigen::Index D>
Observation<D, 3> make(Case& c, Observation<D, 3>*)
{
  Observation<D, 3> o(anyIso(c), anyIso(c));
  o.correspondence_set = anySet<Correspondence<D, 3>>(c);
  return o;
}
template <Eigen::Index D>
void list(Changes& l, Observation<D, 3>& o, const std::string& n = "")
{
  pose(l, n + "to_camera_mount", o.to_camera_mount);
  pose(l, n + "to_target_mount", o.to_target_mount);
  correspondences(l, n + "correspondence_set", o.correspondence_set);
}
template <Eigen::Index D>
KinematicObservation<D, 3> make(Case& c, KinematicObservation<D, 3>*)
{
  KinematicObservation<D, 3> o;
  o.correspondence_set = anySet<Correspondence<D, 3>>(c);
  o.camera_chain_joints = anyJoints(c);
  o.target_chain_joints = anyJoints(c);
  return o;
}
template <Eigen::Index D>
void list(Changes& l, KinematicObservation<D, 3>& o)
{
  joints(l, "camera_chain_joints", o.camera_chain_joints);
  joints(l, "target_chain_joints", o.target_chain_joints);
  correspondences(l, "correspondence_set", o.correspondence_set);
}
KinematicMeasurement make(Case& c, KinematicMeasurement*)
{
  KinematicMeasurement m;
  m.camera_to_target = anyIso(c);
  m.camera_chain_joints = anyJoints(c);
  m.target_chain_joints = anyJoints(c);
  return m;
}
void list(Changes& l, KinematicMeasurement& m)
{
  pose(l, "camera_to_target", m.camera_to_target);
  joints(l, "camera_chain_joints", m.camera_chain_joints);
  joints(l, "target_chain_joints", m.target_chain_joints);
}
CameraIntrinsics make(Case& c, CameraIntrinsics*)
{
  CameraIntrinsics k;
  for (double& v : k.values)
    v = c.b(1, 5) ? 0 : c.r(-2000, 2000);
  return k;
}
void list(Changes& l, CameraIntrinsics& k)
{
  number(l, "fx", k.fx(), std::abs(k.fx()));
  number(l, "fy", k.fy(), std::abs(k.fy()));
  number(l, "cx", k.cx(), std::abs(k.cx()));
  number(l, "cy", k.cy(), std::abs(k.cy()));
}
template <class P, class O>
void fill(Case& c, P& p)
{
  for (int n = c.i(0, 4); n > 0; --n)
    p.observations.push_back(make(c, static_cast<O*>(nullptr)));
  p.target_mount_to_target_guess = anyIso(c);
  p.camera_mount_to_camera_guess = anyIso(c);
}
template <class P>
void listProblem(Changes& l, P& p)
{
  for (std::size_t i = 0; i < p.observations.size(); ++i)
    list(l, p.observations[i], "observation " + std::to_string(i) + " ");
  pose(l, "target_mount_to_target_guess", p.target_mount_to_target_guess);
  pose(l, "camera_mount_to_camera_guess", p.camera_mount_to_camera_guess);
  auto* o = &p.observations;
  using O = typename std::decay<decltype(p.observations[0])>::type;
  l.emplace_back("observations: an empty one more", [o](Case&) { o->push_back(O()); });
  if (!o->empty())
  {
    l.emplace_back("observations: one repeated", [o](Case&) { o->push_back(O(o->back())); });
    l.emplace_back("observations: last removed", [o](Case&) { o->pop_back(); });
  }
}
ExtrinsicHandEyeProblem2D3D make(Case& c, ExtrinsicHandEyeProblem2D3D*)
{
  ExtrinsicHandEyeProblem2D3D p;
  fill<ExtrinsicHandEyeProblem2D3D, Observation2D3D>(c, p);
  p.intr = make(c, static_cast<CameraIntrinsics*>(nullptr));
  return p;
}
void list(Changes& l, ExtrinsicHandEyeProblem2D3D& p)
{
  listProblem(l, p);
  list(l, p.intr);
}
ExtrinsicHandEyeProblem3D3D make(Case& c, ExtrinsicHandEyeProblem3D3D*)
{
  ExtrinsicHandEyeProblem3D3D p;
  fill<ExtrinsicHandEyeProblem3D3D, Observation3D3D>(c, p);
  return p;
}
void list(Changes& l, ExtrinsicHandEyeProblem3D3D& p) { listProblem(l, p); }

template <class T>
void property(Case& c)
{
  const T a = make(c, static_cast<T*>(nullptr));
  T b(a);
  c.check(a == a, "an object does not equal itself");
  c.check(a == b && b == a, "a copy does not equal its original");
  T other;
  bool assign = std::is_default_constructible<T>::value && c.b();
  if (assign)
  {
    other = a;
    c.check(a == other && other == a, "an assigned copy does not equal its original");
  }
  Changes l;
  list(l, b);
  const std::size_t k = std::size_t(c.i(0, int(l.size()) - 1));
  c.note("change", l[k].first);
  std::string what;
  for (char ch : l[k].first)
    if (!std::isdigit(static_cast<unsigned char>(ch)))
      what += ch;
  c.label(what);
  l[k].second(c);
  c.nontrivial();
  c.check(!(a == b), "still equal after a change of " + l[k].first);
  c.check(!(b == a), "not symmetric: still equal after a change of " + l[k].first);
  c.check(b == b, "the changed object does not equal itself");
  c.check(T(b) == b, "a copy of the changed object does not equal it");
}
}  // namespace

PBT(C32, intrinsics, "a single value changed", 4000, 100000) { property<CameraIntrinsics>(c); }
PBT(C32, correspondence2d, "a single coordinate changed", 4000, 100000) { property<Correspondence2D3D>(c); }
PBT(C32, correspondence3d, "a single coordinate changed", 4000, 100000) { property<Correspondence3D3D>(c); }
PBT(C32, observation2d, "a single pose or correspondence changed", 6000, 150000) { property<Observation2D3D>(c); }
PBT(C32, observation3d, "a single pose or correspondence changed", 6000, 150000) { property<Observation3D3D>(c); }
PBT(C32, kinematic2d, "a single joint or correspondence changed", 6000, 150000) { property<KinObservation2D3D>(c); }
PBT(C32, kinematic3d, "a single joint or correspondence changed", 6000, 150000) { property<KinObservation3D3D>(c); }
PBT(C32, measurement, "a single joint or the pose changed", 6000, 150000) { property<KinematicMeasurement>(c); }
PBT(C32, problem2d, "a single member changed", 8000, 200000) { property<ExtrinsicHandEyeProblem2D3D>(c); }
PBT(C32, problem3d, "a single member changed", 8000, 200000) { property<ExtrinsicHandEyeProblem3D3D>(c); }
