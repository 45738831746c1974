// C25: target definitions, feature matching, equality, configuration.  (target equality is also reported under C32)
#include "geom.h"
#include <opencv2/aruco/charuco.hpp>
#include <pluginlib/class_list_macros.h>
#include <rct_image_tools/aruco_grid_target.h>
#include <rct_image_tools/charuco_finder.h>
#include <rct_image_tools/charuco_grid_target.h>
#include <rct_image_tools/modified_circle_grid_finder.h>
#include <rct_ros_tools/loader_utils.h>
#include <rct_ros_tools/target_finder_plugin.h>
#include <yaml-cpp/yaml.h>
using namespace geom;
using namespace rct_image_tools;

namespace
{
struct Dict
{
  int id, count;
};
const Dict& dict(int i)
{
  static const Dict d[] = { { cv::aruco::DICT_6X6_250, 250 }, { cv::aruco::DICT_4X4_50, 50 }, { cv::aruco::DICT_4X4_1000, 1000 }, { cv::aruco::DICT_5X5_100, 100 }, { cv::aruco::DICT_6X6_1000, 1000 }, { cv::aruco::DICT_7X7_50, 50 }, { cv::aruco::DICT_ARUCO_ORIGINAL, 1024 }, { cv::aruco::DICT_5X5_50, 50 } };
  return d[i];
}
struct Def
{
  int kind;  // 0 circle grid, 1 aruco, 2 charuco
  int rows, cols;
  float a, b;  // aruco: marker, gap.  charuco: square, marker
  double spacing;
  int dictionary = 0, first = 0;
  int markers() const { return kind == 1 ? rows * cols : rows * cols / 2; }
};
Def anyDef(Case& c, int kind)
{
  Def d;
  d.kind = kind;
  const int lo = kind == 2 ? 2 : 1;
  d.rows = c.i(lo, c.b(1, 6) ? 20 : 8);
  d.cols = c.i(lo, c.b(1, 6) ? 20 : 8);
  d.spacing = c.b(1, 8) ? c.logr(1e-6, 1e3) : c.r(0.001, 0.5);
  d.a = float(c.r(0.005, 0.3));
  d.b = kind == 2 ? d.a * float(c.r(0.2, 0.95)) : float(c.r(0.001, 0.2));
  d.dictionary = c.i(0, 7);
  // markers must exist in the dictionary
  while (dict(d.dictionary).count < d.markers())
    d.dictionary = (d.dictionary + 1) % 8;
  const int room = dict(d.dictionary).count - d.markers();
  if (kind == 1 && c.b(1, 4))
    d.first = c.i(0, std::min(room, 30));
  return d;
}
std::string show(const Def& d)
{
  std::ostringstream o;
  o << std::setprecision(9) << (d.kind == 0 ? "circle grid " : d.kind == 1 ? "aruco " : "charuco ") << d.rows << " rows " << d.cols << " cols ";
  if (d.kind == 0)
    o << "spacing " << d.spacing;
  else
    o << (d.kind == 1 ? "marker " : "square ") << d.a << (d.kind == 1 ? " gap " : " marker ") << d.b << " dictionary " << dict(d.dictionary).id << " first id " << d.first;
  return o.str();
}
ModifiedCircleGridTarget circle(const Def& d) { return ModifiedCircleGridTarget(unsigned(d.rows), unsigned(d.cols), d.spacing); }
ArucoGridTarget aruco(const Def& d, bool board)
{
  if (!board && d.first == 0)
    return ArucoGridTarget(d.rows, d.cols, d.a, d.b, dict(d.dictionary).id);
  return ArucoGridTarget(cv::aruco::GridBoard::create(d.cols, d.rows, d.a, d.b, cv::aruco::getPredefinedDictionary(dict(d.dictionary).id), d.first));
}
CharucoGridTarget charuco(const Def& d, bool board)
{
  if (!board)
    return CharucoGridTarget(d.rows, d.cols, d.a, d.b, dict(d.dictionary).id);
  return CharucoGridTarget(cv::aruco::CharucoBoard::create(d.cols, d.rows, d.a, d.b, cv::aruco::getPredefinedDictionary(dict(d.dictionary).id)));
}
// documented layout: identity -> points
using Layout = std::map<unsigned, std::vector<Vector3d>>;
Layout layout(const Def& d)
{
  Layout l;
  if (d.kind == 0)
  {
    // rows from the top (largest y), each from the left; origin at the start of the last row
    unsigned id = 0;
    for (int r = 0; r < d.rows; ++r)
      for (int k = 0; k < d.cols; ++k)
        l[id++] = { Vector3d(k * d.spacing, (d.rows - 1 - r) * d.spacing, 0) };
  }
  else if (d.kind == 1)
  {
    // marker ids row by row; corners around the marker from its origin corner (frame of the installed OpenCV 4.6 board:
    // x along the rows, y along the columns)
    const double L = d.a, G = d.b;
    for (int r = 0; r < d.rows; ++r)
      for (int k = 0; k < d.cols; ++k)
      {
        const double x = k * (L + G), y = r * (L + G);
        l[unsigned(d.first + r * d.cols + k)] = { Vector3d(x, y, 0), Vector3d(x + L, y, 0), Vector3d(x + L, y + L, 0), Vector3d(x, y + L, 0) };
      }
  }
  else
  {
    // inner corners of the chessboard, row by row from the origin
    unsigned id = 0;
    for (int r = 1; r < d.rows; ++r)
      for (int k = 1; k < d.cols; ++k)
        l[id++] = { Vector3d(k * double(d.a), r * double(d.a), 0) };
  }
  return l;
}
void samePoint(Case& c, const Vector3d& a, const Vector3d& b, const Def& d, const std::string& what)
{
  const double size = d.kind == 0 ? d.spacing * (d.rows + d.cols) : (d.a + d.b) * (d.rows + d.cols);
  if (!((a - b).norm() <= (d.kind == 0 ? 1e-12 : 1e-6) * size))
  {
    std::ostringstream o;
    o << what << ": " << a.transpose() << " instead of " << b.transpose();
    c.fail(o.str());
  }
}
std::shared_ptr<rct_image_tools::Target> build(Case& c, const Def& d)
{
  const bool board = c.b(1, 3);
  if (d.kind == 0)
    return std::make_shared<ModifiedCircleGridTarget>(circle(d));
  if (d.kind == 1)
    return std::make_shared<ArucoGridTarget>(aruco(d, board));
  return std::make_shared<CharucoGridTarget>(charuco(d, board));
}
bool equal(const Def& d, const rct_image_tools::Target& a, const rct_image_tools::Target& b)
{
  if (d.kind == 0)
    return static_cast<const ModifiedCircleGridTarget&>(a) == static_cast<const ModifiedCircleGridTarget&>(b);
  if (d.kind == 1)
    return static_cast<const ArucoGridTarget&>(a) == static_cast<const ArucoGridTarget&>(b);
  return static_cast<const CharucoGridTarget&>(a) == static_cast<const CharucoGridTarget&>(b);
}
void equality(Case& c, int kind)
{
  const Def d = anyDef(c, kind);
  c.note("target", show(d));
  const auto t = build(c, d), same = build(c, d);
  c.check(equal(d, *t, *same) && equal(d, *same, *t), "a target does not equal one with the same parameters");
  if (kind == 0)
  {
    const ModifiedCircleGridTarget copy = static_cast<const ModifiedCircleGridTarget&>(*t);
    c.check(copy == static_cast<const ModifiedCircleGridTarget&>(*t), "a target does not equal its copy");
  }
  Def o = d;
  const int what = c.i(0, 4);
  const double rel = (c.b() ? 1 : -1) * (c.b() ? 0.5 : c.logr(1e-4, 0.3));
  switch (what)
  {
    case 0:
      o.rows += 1 + c.i(0, 3);
      break;
    case 1:
      o.cols += 1 + c.i(0, 3);
      break;
    case 2:
      if (kind == 0)
        o.spacing *= 1 + rel;
      else
        o.a *= float(1 + std::abs(rel));
      break;
    case 3:
      if (kind == 0)
        std::swap(o.rows, o.cols);
      else
        o.b *= float(1 + (kind == 2 ? -std::abs(rel) : rel));
      break;
    default:
      if (kind == 0)
        o.spacing += 1;
      else if (kind == 1 && c.b())
        o.first += 1 + c.i(0, 3);
      else
        o.dictionary = (d.dictionary + 1 + c.i(0, 6)) % 8;
  }
  if (kind == 0 && o.rows == d.rows && o.cols == d.cols && o.spacing == d.spacing)
    c.discard();
  if (kind && dict(o.dictionary).count < o.markers() + o.first)
    c.discard();
  c.note("changed", show(o));
  c.nontrivial();
  const auto u = build(c, o);
  c.check(!equal(d, *t, *u) && !equal(d, *u, *t), "targets with different parameters compare equal");
}
}  // namespace

PBT(C25, layout, "targets of more than one feature", 3000, 60000)
{
  const Def d = anyDef(c, c.i(0, 2));
  c.note("target", show(d));
  c.label(d.kind == 0 ? "circles" : d.kind == 1 ? "aruco" : "charuco");
  const Layout l = layout(d);
  c.nontrivial(l.size() > 1);
  const bool board = c.b(1, 3);
  Layout got;
  if (d.kind == 0)
  {
    const ModifiedCircleGridTarget t = circle(d);
    c.check(t.rows == unsigned(d.rows) && t.cols == unsigned(d.cols) && t.spacing == d.spacing, "parameters");
    unsigned id = 0;
    for (const Vector3d& p : t.createPoints())
      got[id++] = { p };
  }
  else if (d.kind == 1)
  {
    for (const auto& e : aruco(d, board).points)
      got[unsigned(e.first)] = e.second;
  }
  else
    for (const auto& e : charuco(d, board).points)
      got[e.first] = { e.second };
  c.check(got.size() == l.size(), "the target has " + std::to_string(got.size()) + " features instead of " + std::to_string(l.size()));
  for (const auto& e : l)
  {
    c.check(got.count(e.first) == 1, "feature " + std::to_string(e.first) + " is missing");
    c.check(got[e.first].size() == e.second.size(), "number of points of feature " + std::to_string(e.first));
    for (std::size_t i = 0; i < e.second.size(); ++i)
      samePoint(c, got[e.first][i], e.second[i], d, "point " + std::to_string(i) + " of feature " + std::to_string(e.first));
  }
}

PBT(C25, matching, "feature sets that are a strict subset, or complete sets of a circle grid", 4000, 100000)
{
  const Def d = anyDef(c, c.i(0, 2));
  const auto t = build(c, d);
  const Layout l = layout(d);
  c.note("target", show(d));
  c.label(d.kind == 0 ? "circles" : d.kind == 1 ? "aruco" : "charuco");
  TargetFeatures f;
  const bool all = d.kind == 0 || c.b(1, 5);
  const double keep = c.u();
  int number = 0;
  for (const auto& e : l)
    if (all || c.u() < keep)
    {
      VectorEigenVector<2> v;
      for (std::size_t i = 0; i < e.second.size(); ++i)
        v.push_back(Vector2d(c.r(0, 2000) + 3000.0 * double(number++), c.r(-10, 2000)));  // all different
      f[e.first] = v;
    }
  std::ostringstream ids;
  for (const auto& e : f)
    ids << e.first << " ";
  c.note("features", ids.str());
  c.nontrivial(!all || d.kind == 0);
  const TargetFeatures before = f;
  const auto s = t->createCorrespondences(f);
  c.check(before == f, "features were changed");
  std::size_t n = 0;
  for (const auto& e : f)
    n += e.second.size();
  c.check(s.size() == n, std::to_string(s.size()) + " correspondences from " + std::to_string(n) + " features");
  // every feature with its own point, found again by its image position
  std::vector<bool> used(s.size(), false);
  for (const auto& e : f)
    for (std::size_t i = 0; i < e.second.size(); ++i)
    {
      bool found = false;
      std::size_t best = 0;
      for (std::size_t k = 0; k < s.size() && !found; ++k)
        if (!used[k] && s[k].in_image == e.second[i])
        {
          const double size = 1e-6 * (d.kind == 0 ? d.spacing : d.kind == 1 ? d.a + d.b : d.a) * (d.rows + d.cols);
          best = k;
          if ((s[k].in_target - l.at(e.first)[i]).norm() <= size)
          {
            used[k] = true;
            found = true;
          }
        }
      if (!found)
      {
        std::ostringstream o;
        o << "feature " << e.first << " corner " << i << " at " << e.second[i].transpose() << " was not paired with " << l.at(e.first)[i].transpose();
        if (best < s.size())
          o << " but " << s[best].in_target.transpose();
        c.fail(o.str());
      }
    }
}

PBT(C25, foreign, "feature sets with an identity or number of features that the target does not have", 1500, 40000)
{
  const Def d = anyDef(c, c.i(0, 2));
  const auto t = build(c, d);
  const Layout l = layout(d);
  c.note("target", show(d));
  TargetFeatures f;
  for (const auto& e : l)
    f[e.first] = VectorEigenVector<2>(e.second.size(), Vector2d(1, 2));
  const int how = c.i(0, 2);
  if (how == 0)
    f[l.rbegin()->first + 1 + unsigned(c.i(0, 100))] = VectorEigenVector<2>(l.rbegin()->second.size(), Vector2d(3, 4));
  else if (how == 1 && d.kind == 1)
    f[l.begin()->first].push_back(Vector2d(5, 6));  // a marker has four corners
  else if (how == 2 && d.kind == 0)
    f.erase(c.i(0, int(l.size()) - 1));  // the grid must be seen completely
  else
    c.discard();
  c.label(how == 0 ? "unknown identity" : how == 1 ? "fifth corner" : "incomplete grid");
  c.nontrivial();
  bool refused = false;
  try
  {
    t->createCorrespondences(f);
  }
  catch (const std::exception&)
  {
    refused = true;
  }
  c.check(refused, "features that do not belong to the target were accepted or dropped silently");
}

PBT(C25, equality_circles, "pairs of different circle grids", 1500, 30000) { equality(c, 0); }
PBT(C25, equality_aruco, "pairs of different ArUco grids", 2500, 50000) { equality(c, 1); }
PBT(C25, equality_charuco, "pairs of different ChArUco boards", 2500, 50000) { equality(c, 2); }
PBT(C32, targets_circles, "pairs of different circle grids", 1500, 30000) { equality(c, 0); }
PBT(C32, targets_aruco, "pairs of different ArUco grids", 1500, 30000) { equality(c, 1); }
PBT(C32, targets_charuco, "pairs of different ChArUco boards", 1500, 30000) { equality(c, 2); }

namespace
{
struct Peek : rct_ros_tools::TargetFinderPlugin
{
  static const TargetFinder& get(rct_ros_tools::TargetFinderPlugin& p) { return *(p.*(&Peek::finder_)); }
};
std::shared_ptr<rct_ros_tools::TargetFinderPlugin> plugin(Case& c, const std::string& n)
{
  auto& r = pluginshim::registry<rct_ros_tools::TargetFinderPlugin>();
  auto it = r.find("rct_ros_tools::" + n);
  if (it == r.end())
    c.fail("plugin " + n + " is not registered");
  return it->second();
}
std::string params(const CircleDetectorParams& p)
{
  std::ostringstream o;
  o << std::setprecision(9) << p.minThreshold << " " << p.maxThreshold << " " << p.nThresholds << " " << p.minRepeatability << " " << p.circleInclusionRadius << " " << p.maxRadiusDiff << " " << p.maxAverageEllipseError << " " << p.filterByColor << " "
    << int(p.circleColor) << " " << p.filterByArea << " " << p.minArea << " " << p.maxArea << " " << p.filterByCircularity << " " << p.minCircularity << " " << p.maxCircularity << " " << p.filterByInertia << " " << p.minInertiaRatio << " "
    << p.maxInertiaRatio << " " << p.filterByConvexity << " " << p.minConvexity << " " << p.maxConvexity;
  return o.str();
}
CircleDetectorParams anyParams(Case& c)
{
  CircleDetectorParams p;
  p.minThreshold = float(c.r(0, 120));
  p.maxThreshold = float(c.r(121, 255));
  p.nThresholds = std::size_t(c.i(1, 40));
  p.minRepeatability = std::size_t(c.i(1, 40));
  p.circleInclusionRadius = float(c.r(0, 20));
  p.maxRadiusDiff = float(c.r(0, 20));
  p.maxAverageEllipseError = float(c.r(0.001, 0.2));
  p.filterByColor = c.b();
  p.circleColor = c.b() ? 255 : 0;
  p.filterByArea = c.b();
  p.minArea = float(c.r(0, 100));
  p.maxArea = float(c.r(101, 1e5));
  p.filterByCircularity = c.b();
  p.minCircularity = float(c.r(0, 1));
  p.maxCircularity = float(c.r(1, 10));
  p.filterByInertia = c.b();
  p.minInertiaRatio = float(c.r(0, 1));
  p.maxInertiaRatio = float(c.r(1, 10));
  p.filterByConvexity = c.b();
  p.minConvexity = float(c.r(0, 1));
  p.maxConvexity = float(c.r(1, 10));
  return p;
}
void put(XmlRpc::XmlRpcValue& x, const CircleDetectorParams& p)
{
  x["minThreshold"] = double(p.minThreshold);
  x["maxThreshold"] = double(p.maxThreshold);
  x["nThresholds"] = int(p.nThresholds);
  x["minRepeatability"] = int(p.minRepeatability);
  x["circleInclusionRadius"] = double(p.circleInclusionRadius);
  x["maxRadiusDiff"] = double(p.maxRadiusDiff);
  x["maxAverageEllipseError"] = double(p.maxAverageEllipseError);
  x["filterByColor"] = p.filterByColor;
  x["circleColor"] = int(p.circleColor);
  x["filterByArea"] = p.filterByArea;
  x["minArea"] = double(p.minArea);
  x["maxArea"] = double(p.maxArea);
  x["filterByCircularity"] = p.filterByCircularity;
  x["minCircularity"] = double(p.minCircularity);
  x["maxCircularity"] = double(p.maxCircularity);
  x["filterByInertia"] = p.filterByInertia;
  x["minInertiaRatio"] = double(p.minInertiaRatio);
  x["maxInertiaRatio"] = double(p.maxInertiaRatio);
  x["filterByConvexity"] = p.filterByConvexity;
  x["minConvexity"] = double(p.minConvexity);
  x["maxConvexity"] = double(p.maxConvexity);
}
void configuration(Case& c)
{
  const Def d = anyDef(c, c.b() ? 2 : 0);
  c.note("target", show(d));
  XmlRpc::XmlRpcValue x;
  x["type"] = std::string("rct_ros_tools::x");
  x["rows"] = d.rows;
  x["cols"] = d.cols;
  bool withParams = false;
  CircleDetectorParams want;
  std::vector<std::string> need = { "rows", "cols" };
  if (d.kind == 0)
  {
    x["spacing"] = d.spacing;
    need.push_back("spacing");
    withParams = c.b();
    if (withParams)
    {
      want = anyParams(c);
      XmlRpc::XmlRpcValue p;
      put(p, want);
      x["circle_detector_params"] = p;
    }
  }
  else
  {
    x["chessboard_dim"] = double(d.a);
    x["aruco_marker_dim"] = double(d.b);
    x["dictionary"] = dict(d.dictionary).id;
    need.insert(need.end(), { "chessboard_dim", "aruco_marker_dim", "dictionary" });
  }
  const std::string name = d.kind == 0 ? "ModifiedCircleGridTargetFinderPlugin" : "CharucoGridTargetFinderPlugin";
  const int how = c.i(0, 4);
  std::string key;
  if (how == 1 || how == 2 || how == 3)
  {
    // missing or of the wrong type
    key = need[c.draw(need.size())];
    XmlRpc::XmlRpcValue y;
    y.makeStruct();
    for (auto& e : x)
      if (e.first != key)
        y[e.first] = e.second;
    if (how == 2)
      y[key] = std::string(c.pick({ "many", "", "1x", "0.1.2" }));
    if (how == 3)
    {
      if (key == "rows" || key == "cols")
        y[key] = c.b() ? XmlRpc::XmlRpcValue(-c.i(1, 5)) : XmlRpc::XmlRpcValue(double(c.i(1, 5)) + 0.5);
      else
        y[key].makeStruct();
    }
    x = y;
    c.note("broken", key + (how == 1 ? " missing" : " malformed"));
  }
  c.label(how == 1 ? "missing" : how == 2 || how == 3 ? "malformed" : "complete");
  c.nontrivial();
  const auto p = plugin(c, name);
  bool ok = true;
  std::string what;
  try
  {
    p->init(rct_ros_tools::toYAML(x));
  }
  catch (const std::exception& e)
  {
    ok = false;
    what = e.what();
  }
  if (!key.empty())
  {
    c.check(!ok, "configuration with " + key + (how == 1 ? " missing" : " malformed") + " was accepted");
    return;
  }
  c.check(ok, "complete configuration was refused: " + what);
  const auto direct = build(c, d);
  if (d.kind == 0)
  {
    const auto* t = dynamic_cast<const ModifiedCircleGridTarget*>(&p->target());
    c.check(t != nullptr && *t == circle(d), "the configured target differs from the one built directly");
    const auto* f = dynamic_cast<const ModifiedCircleGridTargetFinder*>(&Peek::get(*p));
    c.check(f != nullptr, "kind of finder");
    const std::string got = params(f->getCircleDetectorParams()), ref = params(want);
    c.check(got == ref, "circle detector parameters are\n " + got + " instead of\n " + ref);
  }
  else
  {
    const auto* t = dynamic_cast<const CharucoGridTarget*>(&p->target());
    c.check(t != nullptr && *t == charuco(d, false), "the configured target differs from the one built directly");
  }
}
}  // namespace
PBT(C25, configuration, "complete, incomplete and malformed target configurations", 2500, 60000) { configuration(c); }
PBT(C30, targets, "complete, incomplete and malformed target configurations", 2500, 60000) { configuration(c); }
