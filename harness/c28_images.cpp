// C28: circle detection, drawing and robustness of the image routines.
#include "image.h"
#include <opencv2/aruco/charuco.hpp>
#include <rct_image_tools/aruco_finder.h>
#include <rct_image_tools/charuco_finder.h>
#include <rct_image_tools/image_utils.h>
#include <rct_image_tools/modified_circle_grid_finder.h>
using namespace geom;
using namespace rct_image_tools;

namespace
{
const bool oneThread = (cv::setNumThreads(1), true);
using Keys = std::vector<cv::KeyPoint>;
std::string show(const CircleDetectorParams& p)
{
  std::ostringstream o;
  o << "thresholds " << p.minThreshold << ".." << p.maxThreshold << " x" << p.nThresholds << " repeat " << p.minRepeatability << " inclusion " << p.circleInclusionRadius << " radius diff " << p.maxRadiusDiff
    << " ellipse error " << p.maxAverageEllipseError << (p.filterByColor ? " colour " + std::to_string(p.circleColor) : std::string());
  if (p.filterByArea)
    o << " area " << p.minArea << ".." << p.maxArea;
  if (p.filterByCircularity)
    o << " circularity " << p.minCircularity << ".." << p.maxCircularity;
  if (p.filterByInertia)
    o << " inertia " << p.minInertiaRatio << ".." << p.maxInertiaRatio;
  if (p.filterByConvexity)
    o << " convexity " << p.minConvexity << ".." << p.maxConvexity;
  return o.str();
}
CircleDetectorParams anyParams(Case& c)
{
  CircleDetectorParams p;
  if (c.b())
    p.minThreshold = float(c.r(-20, 255)), p.maxThreshold = float(c.r(0, 280));
  if (c.b())
    p.nThresholds = c.i(0, 24), p.minRepeatability = c.i(0, 6);
  if (c.b())
    p.circleInclusionRadius = float(c.r(0, 20)), p.maxRadiusDiff = float(c.r(0, 20));
  if (c.b())
    p.maxAverageEllipseError = float(c.logr(0.001, 2));
  p.filterByColor = !c.b(1, 3);
  p.circleColor = c.b(1, 3) ? 255 : 0;
  if (c.b())
    p.filterByArea = c.b(), p.minArea = float(c.r(0, 100)), p.maxArea = float(c.logr(50, 1e6));
  if (c.b())
    p.filterByCircularity = c.b(), p.minCircularity = float(c.r(0, 1)), p.maxCircularity = c.b() ? float(c.r(0, 1.3)) : p.maxCircularity;
  if (c.b())
    p.filterByInertia = c.b(), p.minInertiaRatio = float(c.r(0, 1)), p.maxInertiaRatio = c.b() ? float(c.r(0, 1.2)) : p.maxInertiaRatio;
  if (c.b())
    p.filterByConvexity = c.b(), p.minConvexity = float(c.r(0, 1)), p.maxConvexity = c.b() ? float(c.r(0, 1.2)) : p.maxConvexity;
  return p;
}
cv::Mat anyImage(Case& c, std::string& what)
{
  const int w = c.b(1, 4) ? c.i(1, 12) : c.i(8, 200), h = c.b(1, 4) ? c.i(1, 12) : c.i(8, 150);
  static const int types[] = { CV_8UC1, CV_8UC3, CV_8UC4, CV_16UC1, CV_32FC1, CV_8UC2, CV_16UC3 };
  const int type = types[c.b(1, 6) ? c.i(2, 6) : c.i(0, 1)];
  const int kind = c.i(0, 4);
  cv::RNG rng(c.draw(1u << 30) + 1);
  cv::Mat m(h, w, CV_8U);
  switch (kind)
  {
    case 0:
      m = cv::Scalar(rng.uniform(0, 256));
      break;
    case 1:
      rng.fill(m, cv::RNG::UNIFORM, 0, 256);
      break;
    case 2:
    {
      // smooth random field
      cv::Mat s(std::max(1, h / 6 + 1), std::max(1, w / 6 + 1), CV_8U);
      rng.fill(s, cv::RNG::UNIFORM, 0, 256);
      cv::resize(s, m, m.size(), 0, 0, cv::INTER_CUBIC);
      break;
    }
    case 3:
    {
      // sparse binary
      rng.fill(m, cv::RNG::UNIFORM, 0, 256);
      m = (m < rng.uniform(5, 120));
      break;
    }
    default:
    {
      // shapes, also across the border
      m = cv::Scalar(rng.uniform(0, 256));
      const int n = rng.uniform(1, 15);
      for (int i = 0; i < n; ++i)
      {
        const cv::Scalar col(rng.uniform(0, 256));
        const cv::Point p(rng.uniform(-5, w + 5), rng.uniform(-5, h + 5)), q(rng.uniform(-5, w + 5), rng.uniform(-5, h + 5));
        switch (rng.uniform(0, 4))
        {
          case 0:
            cv::ellipse(m, p, cv::Size(rng.uniform(1, 30), rng.uniform(1, 30)), rng.uniform(0., 180.), rng.uniform(0., 200.), 360, col, rng.uniform(0, 3) ? -1 : 1);
            break;
          case 1:
            cv::line(m, p, q, col, rng.uniform(1, 4));
            break;
          case 2:
            cv::rectangle(m, p, q, col, rng.uniform(0, 2) ? -1 : 1);
            break;
          default:
            cv::circle(m, p, rng.uniform(1, 25), col, rng.uniform(0, 3) ? -1 : 1);
        }
      }
    }
  }
  static const char* names[] = { "plain", "noise", "smooth", "sparse", "shapes" };
  std::ostringstream o;
  o << names[kind] << " " << w << "x" << h << " channels " << CV_MAT_CN(type) << " depth " << CV_MAT_DEPTH(type);
  what = o.str();
  c.label(names[kind]);
  c.label(type == CV_8UC1 || type == CV_8UC3 ? "supported type" : "other type");
  if (CV_MAT_CN(type) > 1)
  {
    std::vector<cv::Mat> ch(CV_MAT_CN(type), m);
    if (c.b())
      for (std::size_t i = 1; i < ch.size(); ++i)
        ch[i] = 255 - m;
    cv::Mat k;
    cv::merge(ch, k);
    m = k;
  }
  m.convertTo(m, CV_MAT_DEPTH(type), CV_MAT_DEPTH(type) == CV_16U ? 257 : 1);
  return m;
}
// runs f; true when it returned.  Only exceptions derived from std::exception may come out
template <class F>
bool returns(Case& c, const std::string& what, F&& f)
{
  try
  {
    f();
    return true;
  }
  catch (const std::exception& e)
  {
    c.label(what + " refused");
    return false;
  }
  catch (const pbt::Fail&)
  {
    throw;
  }
  catch (...)
  {
    c.fail(what + ": threw something that is not a std::exception");
  }
}
void checkKeys(Case& c, const Keys& k, const cv::Mat& m, const CircleDetectorParams& p)
{
  for (const auto& q : k)
  {
    c.check(std::isfinite(q.pt.x) && std::isfinite(q.pt.y) && std::isfinite(q.size) && q.size >= 0, "keypoint not finite");
    if (p.filterByColor)
      c.check(q.pt.x >= -0.51 && q.pt.y >= -0.51 && q.pt.x <= m.cols - 0.49 && q.pt.y <= m.rows - 0.49, "keypoint outside of the image");
  }
}
bool sameKeys(const Keys& a, const Keys& b)
{
  if (a.size() != b.size())
    return false;
  for (std::size_t i = 0; i < a.size(); ++i)
    if (a[i].pt != b[i].pt || a[i].size != b[i].size)
      return false;
  return true;
}
}  // namespace

PBT(C28, detector_fuzz, "keypoints were found, or the parameters or the image were refused", 1500, 40000)
{
  std::string what;
  cv::Mat m = anyImage(c, what);
  CircleDetectorParams p = anyParams(c);
  c.note("image", what);
  c.note("params", show(p));
  const cv::Mat before = m.clone();
  CircleDetector d(p);
  Keys k, again;
  const bool ok = returns(c, "detect", [&] { d.detect(m, k); });
  c.check(img::sameImage(m, before), "detect altered the image");
  if (p.minRepeatability > p.nThresholds)
    c.check(!ok, "contradictory parameters (repeatability above the number of thresholds) accepted");
  c.nontrivial(!ok || !k.empty());
  if (ok)
  {
    if (!k.empty())
      c.label("keypoints");
    checkKeys(c, k, m, p);
    d.detect(m, again);
    c.check(sameKeys(k, again), "second detection differs");
    // a stricter repeatability only removes keypoints
    CircleDetectorParams q = p;
    q.minRepeatability += 1;
    if (q.minRepeatability <= q.nThresholds && p.minRepeatability >= 1)
    {
      Keys s;
      CircleDetector(q).detect(m, s);
      std::size_t j = 0;
      for (const auto& x : s)
      {
        while (j < k.size() && !(k[j].pt == x.pt && k[j].size == x.size))
          ++j;
        c.check(j < k.size(), "a stricter repeatability added a keypoint");
        ++j;
      }
    }
  }
  cv::Mat drawn;
  const bool dok = returns(c, "drawDetectedCircles", [&] { drawn = d.drawDetectedCircles(m); });
  c.check(img::sameImage(m, before), "drawing the detected circles altered the image");
  if (dok)
    c.check(drawn.size() == m.size(), "drawing has another size");
  if (p.minRepeatability > p.nThresholds)
    c.check(!dok, "contradictory parameters accepted for drawing");
}

namespace
{
struct AnyFinder
{
  std::shared_ptr<TargetFinder> finder;
  std::string name;
  int kind, rows, cols, ids;  // ids: number of identities
};
AnyFinder anyFinder(Case& c, bool params)
{
  AnyFinder f;
  f.kind = c.i(0, 2);
  f.rows = c.i(f.kind == 1 ? 1 : 2, 5);
  f.cols = c.i(f.kind == 1 ? 1 : 2, 5);
  const int dict = c.pick({ int(cv::aruco::DICT_4X4_50), int(cv::aruco::DICT_6X6_250) });
  if (f.kind == 0)
  {
    ModifiedCircleGridTarget t(unsigned(f.rows), unsigned(f.cols), 0.02);
    if (params)
    {
      CircleDetectorParams p = anyParams(c);
      c.note("params", show(p));
      f.finder = std::make_shared<ModifiedCircleGridTargetFinder>(t, p);
    }
    else
      f.finder = std::make_shared<ModifiedCircleGridTargetFinder>(t);
    f.ids = f.rows * f.cols;
  }
  else if (f.kind == 1)
  {
    f.finder = std::make_shared<ArucoGridBoardTargetFinder>(ArucoGridTarget(f.rows, f.cols, 0.02f, 0.005f, dict));
    f.ids = f.rows * f.cols;
  }
  else
  {
    f.finder = std::make_shared<CharucoGridBoardTargetFinder>(CharucoGridTarget(f.rows, f.cols, 0.02f, 0.012f, dict));
    f.ids = (f.rows - 1) * (f.cols - 1);
  }
  static const char* names[] = { "circle grid", "aruco", "charuco" };
  f.name = names[f.kind];
  c.label(f.name);
  c.note("finder", f.name + " " + std::to_string(f.rows) + "x" + std::to_string(f.cols));
  return f;
}
}  // namespace

PBT(C28, finder_fuzz, "image of a supported type larger than 20x20", 600, 20000)
{
  AnyFinder f = anyFinder(c, c.b());
  std::string what;
  cv::Mat m = anyImage(c, what);
  c.note("image", what);
  c.nontrivial((m.type() == CV_8UC1 || m.type() == CV_8UC3) && m.cols > 20 && m.rows > 20);
  const cv::Mat before = m.clone();
  TargetFeatures t;
  const bool ok = returns(c, "find", [&] { t = f.finder->findTargetFeatures(m); });
  c.check(img::sameImage(m, before), "searching altered the image");
  if (!ok)
    return;
  c.label(t.empty() ? "none" : "features");
  for (const auto& e : t)
  {
    c.check(int(e.first) < f.ids, "identity that the target does not have");
    c.check(e.second.size() == (f.kind == 1 ? 4u : 1u), "number of points of one feature");
    for (const auto& q : e.second)
      c.check(q.allFinite(), "feature not finite");
  }
  c.check(f.kind != 0 || int(t.size()) == f.ids, "circle grid with a wrong number of dots");
  returns(c, "draw", [&] {
    const cv::Mat d = f.finder->drawTargetFeatures(m, t);
    c.check(d.size() == m.size(), "drawing has another size");
  });
  c.check(img::sameImage(m, before), "drawing altered the image");
}

PBT(C28, draw_features, "at least one feature to draw", 500, 20000)
{
  AnyFinder f = anyFinder(c, false);
  const int w = c.i(20, 160), h = c.i(20, 120);
  cv::Mat m(h, w, c.b() ? CV_8UC3 : CV_8UC1, cv::Scalar::all(c.i(0, 255)));
  TargetFeatures t;
  const int missing = c.i(0, 3);  // how many of the features are missing
  const double reach = c.b(1, 4) ? 1e6 : 1.2;
  for (int i = 0; i < f.ids; ++i)
  {
    if (missing && (missing == 3 || c.b(missing, 4)))
      continue;
    VectorEigenVector<2> v;
    const int n = f.kind == 1 ? 4 : 1;
    for (int j = 0; j < n; ++j)
      v.push_back(Vector2d(c.r(-0.2, reach) * w, c.r(-0.2, reach) * h));
    t.emplace(unsigned(i), v);
  }
  c.note("features", t.size());
  c.note("image", std::to_string(w) + "x" + std::to_string(h) + "x" + std::to_string(m.channels()));
  c.nontrivial(!t.empty());
  const cv::Mat before = m.clone();
  cv::Mat d;
  const bool ok = returns(c, "draw", [&] { d = f.finder->drawTargetFeatures(m, t); });
  c.check(img::sameImage(m, before), "drawing the features altered the input image");
  if (f.kind != 0 || t.empty() || int(t.size()) == f.ids)
    c.check(ok, "drawing of found features refused");
  if (!ok)
    return;
  c.check(d.size() == m.size() && d.data != m.data, "drawing is not a separate image of the same size");
  bool inside = false;
  for (const auto& e : t)
    for (const auto& q : e.second)
      inside = inside || (q.x() > 1 && q.y() > 1 && q.x() < w - 2 && q.y() < h - 2);
  if (inside && m.channels() == 3)
    c.check(!img::sameImage(d, before) , "nothing was drawn");
  // every feature is marked where it is
  if (m.channels() == 3)
    for (const auto& e : t)
      for (const auto& q : e.second)
      {
        const int x = int(std::lround(std::max(-9.0, std::min(1e4, q.x())))), y = int(std::lround(std::max(-9.0, std::min(1e4, q.y()))));
        if (x < 1 || y < 1 || x > w - 2 || y > h - 2)
          continue;
        const cv::Rect r = cv::Rect(x - 6, y - 6, 13, 13) & cv::Rect(0, 0, w, h);
        c.check(!img::sameImage(d(r).clone(), before(r).clone()), "feature " + std::to_string(e.first) + " is not marked");
      }
}

PBT(C28, reprojections, "points on both sides of the image border", 1500, 60000)
{
  CameraIntrinsics k = anyIntr(c);
  const Isometry3d pose = anyIso(c, 1.0);
  std::vector<Vector3d> pts;
  const int n = c.i(0, 12);
  for (int i = 0; i < n; ++i)
  {
    // in front of the camera
    const Vector3d q(c.r(-1.5, 1.5), c.r(-1.5, 1.5), c.r(0.5, 3));
    pts.push_back(pose.inverse() * q);
  }
  const auto uv = getReprojections(pose, k, pts);
  c.check(uv.size() == pts.size(), "number of reprojections");
  for (std::size_t i = 0; i < uv.size(); ++i)
  {
    const Vector2d e = refProject(k, pose * pts[i]);
    c.near(uv[i].x, e.x(), 1e-6 * (1 + std::abs(e.x())), "u");
    c.near(uv[i].y, e.y(), 1e-6 * (1 + std::abs(e.y())), "v");
  }
  const int w = c.i(20, 320), h = c.i(20, 240), size = c.i(1, 12), bg = c.i(0, 120);
  cv::Mat m(h, w, c.b() ? CV_8UC3 : CV_8UC1, cv::Scalar::all(bg));
  std::vector<cv::Point2d> shown;
  for (const auto& q : uv)
    shown.push_back(c.b(2, 3) ? cv::Point2d(c.r(-20, w + 20), c.r(-20, h + 20)) : q);
  c.note("points", n);
  c.note("size", size);
  drawReprojections(shown, size, cv::Scalar(250, 200, 255), m);
  std::vector<int> hit(shown.size(), 0);
  bool in = false, out = false;
  for (int y = 0; y < h; ++y)
    for (int x = 0; x < w; ++x)
    {
      bool changed = false;
      for (int ch = 0; ch < m.channels(); ++ch)
        changed = changed || m.ptr<uchar>(y)[x * m.channels() + ch] != bg;
      if (!changed)
        continue;
      bool near = false;
      for (std::size_t i = 0; i < shown.size(); ++i)
      {
        const double dd = std::hypot(shown[i].x - x, shown[i].y - y);
        if (std::abs(dd - size) < 2)
          near = true, hit[i]++;
      }
      c.check(near, "pixel altered away from every circle");
    }
  for (std::size_t i = 0; i < shown.size(); ++i)
  {
    const bool inside = shown[i].x > size + 2 && shown[i].y > size + 2 && shown[i].x < w - size - 3 && shown[i].y < h - size - 3;
    in = in || inside;
    out = out || !inside;
    if (inside)
      c.check(hit[i] >= 3 * size, "circle around a reprojection is missing");
  }
  c.nontrivial(in && out);
}

// ---- shapes with known measures
namespace
{
struct Shape
{
  int kind;  // 0 disc, 1 ellipse, 2 plus, 3 two-step disc
  double x, y, a, b, ang;
  int grey, grey2 = 0;
  double ox = 0, oy = 0;  // offset of the inner disc
  double reach() const { return std::max(a, b) * (kind == 2 ? 1.1 : 1.0); }
  bool in(double px, double py) const
  {
    const double dx = px - x, dy = py - y, u = dx * std::cos(ang) + dy * std::sin(ang), v = -dx * std::sin(ang) + dy * std::cos(ang);
    if (kind == 2)
      return (std::abs(u) <= a && std::abs(v) <= b) || (std::abs(v) <= a && std::abs(u) <= b);
    return u * u / (a * a) + v * v / (b * b) <= 1;
  }
  // measures of the shape blown up by e pixel
  double area(double e) const { return kind == 2 ? 4 * (2 * (a + e) * (b + e) - (b + e) * (b + e)) : M_PI * (a + e) * (b + e); }
};
}  // namespace

PBT(C28, shapes_and_filters, "at least one shape that has to be found and one that must not", 700, 20000)
{
  const bool dark = !c.b(1, 3);
  CircleDetectorParams p;
  if (c.b(1, 3))
    p.minThreshold = float(c.r(10, 110)), p.maxThreshold = float(c.r(130, 245)), p.nThresholds = c.i(1, 30);
  p.minRepeatability = c.b() ? std::min<std::size_t>(3, std::max<std::size_t>(p.nThresholds, 1)) : c.i(1, int(p.nThresholds));
  p.filterByColor = !c.b(1, 6);
  p.circleColor = dark ? 0 : 255;
  const bool colourMatch = !c.b(1, 8);
  if (!colourMatch)
    p.circleColor = 255 - p.circleColor, p.filterByColor = true;
  if (c.b(1, 2))
    p.minArea = float(c.r(25, 500)), p.maxArea = float(c.r(600, 5000));
  p.filterByArea = !c.b(1, 6);
  p.filterByCircularity = c.b(1, 4);
  if (c.b())
    p.minCircularity = float(c.r(0.3, 0.8));
  if (c.b(1, 6))
    p.maxCircularity = 0.65f;
  p.filterByInertia = c.b(1, 4);
  if (c.b())
    p.minInertiaRatio = float(c.r(0.1, 0.8));
  if (c.b(1, 6))
    p.maxInertiaRatio = 0.7f;
  p.filterByConvexity = !c.b(1, 4);
  if (c.b(1, 3))
    p.minConvexity = float(c.r(0.5, 0.95));
  if (c.b(1, 5))
    p.maxConvexity = 0.85f;
  p.maxAverageEllipseError = c.b(1, 3) ? 0.5f : 0.05f;
  if (c.b(1, 3))
    p.maxRadiusDiff = float(c.r(1, 8));
  if (c.b(1, 3))
    p.circleInclusionRadius = float(c.r(1, 8)), p.maxRadiusDiff = std::max(p.maxRadiusDiff, float(c.r(1, 30)));
  c.note("params", show(p));
  const int w = 400, h = 300, n = c.i(1, 10), bg = dark ? c.i(200, 255) : c.i(0, 40);
  c.note(dark ? "dark on" : "light on", bg);
  cv::Mat m(h, w, CV_8U, cv::Scalar(bg));
  std::vector<Shape> s;
  for (int i = 0; i < n; ++i)
  {
    Shape t;
    t.kind = c.i(0, 3);
    t.a = c.r(6, 36);
    t.b = t.kind == 0 || t.kind == 3 ? t.a : t.kind == 1 ? t.a * c.r(0.35, 0.95) : t.a * c.r(0.2, 0.45);
    t.ang = t.kind == 1 || t.kind == 2 ? c.r(0, M_PI) : 0;
    t.x = c.r(t.reach() + 3, w - 4 - t.reach());
    t.y = c.r(t.reach() + 3, h - 4 - t.reach());
    t.grey = dark ? c.i(0, std::min(bg - 10, 180)) : c.i(std::max(bg + 10, 80), 255);
    bool clash = std::min(t.a, t.b) < 4;
    for (const auto& o : s)
      clash = clash || std::hypot(o.x - t.x, o.y - t.y) < o.reach() + t.reach() + 16;
    if (clash)
      continue;
    if (t.kind == 3)
    {
      // outer ring, weaker than the inside
      t.b = t.a - c.r(1, t.a - 4.5 > 1 ? t.a - 4.5 : 1);
      t.grey2 = dark ? c.i(t.grey, bg) : c.i(bg, t.grey);
      if (c.b())
      {
        const double o = c.r(0, std::max(0.0, t.a - t.b - 1.5)), w = c.r(-M_PI, M_PI);
        t.ox = o * std::cos(w), t.oy = o * std::sin(w);
      }
      if (t.grey2 == t.grey || t.grey2 == bg || t.b < 4)
        continue;
    }
    s.push_back(t);
    for (int y = 0; y < h; ++y)
      for (int x = 0; x < w; ++x)
      {
        if (t.kind == 3)
        {
          const double r = std::hypot(x - t.x, y - t.y);
          if (r <= t.a)
            m.at<uchar>(y, x) = uchar(std::hypot(x - t.x - t.ox, y - t.y - t.oy) <= t.b ? t.grey : t.grey2);
        }
        else if (t.in(x, y))
          m.at<uchar>(y, x) = uchar(t.grey);
      }
  }
  if (s.empty())
    c.discard();
  if (c.b(1, 3))
    cv::merge(std::vector<cv::Mat>{ m, m, m }, m);
  // thresholds at which something is seen, per the documentation (evenly spaced from minimum to maximum, both included)
  std::vector<double> th;
  for (std::size_t i = 0; i < p.nThresholds; ++i)
    th.push_back(p.nThresholds == 1 ? (double(p.minThreshold) + p.maxThreshold) / 2 : p.minThreshold + (double(p.maxThreshold) - p.minThreshold) * i / (p.nThresholds - 1));
  auto seen = [&](int shape, int around, bool& sure) {
    int k = 0;
    for (double t : th)
    {
      if (std::abs(t - std::round(t)) < 1e-3 && (std::round(t) == shape || std::round(t) == around) && t != std::round(t))
        sure = false;
      k += (shape > t) != (around > t);
    }
    return k;
  };
  // 1 yes, 0 no, -1 unsure.  Bounds of a measure are compared with the limits
  auto within = [](double lo, double hi, double mn, double mx) { return lo >= mn && hi < mx ? 1 : hi < mn || lo >= mx ? 0 : -1; };
  auto passes = [&](const Shape& t) {
    int r = 1;
    auto also = [&](int k) { r = k == 0 || r == 0 ? 0 : k < 0 ? -1 : r; };
    if (p.filterByArea)
      also(within(t.area(dark ? -0.5 : -1.2), t.area(dark ? 1.2 : 0.5), p.minArea, p.maxArea));
    const double arms = 4 * (2 * t.a * t.b - t.b * t.b), hull = t.kind == 2 ? 4 * t.a * t.b * 2 - 0 : 0;
    (void)hull;
    if (p.filterByCircularity)
    {
      const double h2 = std::pow((t.a - t.b) / (t.a + t.b), 2), per = M_PI * (t.a + t.b) * (1 + 3 * h2 / (10 + std::sqrt(4 - 3 * h2)));
      const double v = t.kind == 2 ? 4 * M_PI * arms / std::pow(8 * t.a, 2) : 4 * M_PI * t.area(0) / (per * per);
      // pixel contours are up to a tenth longer, and of a differing size
      also(within(v * 0.72, std::min(v * 1.1, 1.05), p.minCircularity, p.maxCircularity));
    }
    if (p.filterByInertia)
    {
      const double q = t.kind == 2 ? 1.0 : std::pow(std::min(t.a, t.b) / std::max(t.a, t.b), 2);
      also(within(q * 0.8 - 0.05, q * 1.1 + 0.08, p.minInertiaRatio, p.maxInertiaRatio));
    }
    if (p.filterByConvexity)
    {
      double lo, hi;
      if (t.kind == 2)
      {
        // hull of a plus: octagon
        const double oct = 4 * (t.a * t.a) - 2 * (t.a - t.b) * (t.a - t.b), v = arms / oct;
        lo = v - 0.12, hi = v + 0.15;
      }
      else
        lo = std::min(t.a, t.b) > 8 ? 0.95 : 0.9, hi = 1.0;
      also(within(lo, hi, p.minConvexity, p.maxConvexity));
    }
    // the fit of an ellipse
    if (t.kind == 2)
      also(-1);
    else
      also(std::min(t.a, t.b) >= 5 ? 1 : p.maxAverageEllipseError > 0.1 ? 1 : -1);
    if (!colourMatch)
      also(0);
    return r;
  };
  Keys k;
  CircleDetector(p).detect(m, k);
  // without a limit of the area the frame of the image is a contour of its own
  k.erase(std::remove_if(k.begin(), k.end(), [&](const cv::KeyPoint& q) { return !p.filterByArea && q.size > 150; }), k.end());
  bool found = false, rejected = false;
  std::vector<int> owner(k.size(), -1);
  for (std::size_t i = 0; i < k.size(); ++i)
    for (std::size_t j = 0; j < s.size(); ++j)
      if (std::hypot(k[i].pt.x - s[j].x, k[i].pt.y - s[j].y) < s[j].reach())
        owner[i] = int(j);
  if (p.filterByArea && colourMatch && p.filterByColor)
    for (int o : owner)
      c.check(o >= 0, "keypoint away from every shape");
  for (std::size_t j = 0; j < s.size(); ++j)
  {
    const Shape& t = s[j];
    std::vector<cv::KeyPoint> mine;
    for (std::size_t i = 0; i < k.size(); ++i)
      if (owner[i] == int(j))
        mine.push_back(k[i]);
    std::ostringstream o;
    o << "shape " << t.kind << " at " << t.x << "," << t.y << " half sizes " << t.a << "/" << t.b << " grey " << t.grey << "/" << t.grey2 << ": ";
    const std::string who = o.str();
    bool sure = true;
    // expected appearances: radius (mean half size), how often
    std::vector<std::pair<double, int>> e;
    int verdict = 1;
    if (t.kind != 3)
    {
      const int times = seen(t.grey, bg, sure);
      verdict = passes(t);
      if (times < int(p.minRepeatability))
        verdict = 0;
      if (verdict == 1)
        e.push_back({ (t.a + t.b) / 2, times });
    }
    else
    {
      // seen with the small radius where the ring counts as background, with the large one elsewhere
      int small = 0, large = 0;
      for (double x : th)
      {
        const bool in = (t.grey > x) != (bg > x), ring = (t.grey2 > x) != (bg > x);
        small += in && !ring;
        large += in && ring;
      }
      Shape si = t, so = t;
      si.kind = so.kind = 0;
      si.a = si.b = t.b;
      so.b = t.a;
      // groups: with the colour of the background, the ring border may also appear inside
      const int vs = small ? passes(si) : 0, vl = large ? passes(so) : 0;
      const double diff = t.a - t.b, off = std::hypot(t.ox, t.oy);
      if (vs < 0 || vl < 0 || std::abs(diff - p.maxRadiusDiff) < 1.2 || std::abs(off - p.circleInclusionRadius) < 0.8)
        verdict = -1;
      else
      {
        const int ns = vs ? small : 0, nl = vl ? large : 0;
        if (diff <= p.maxRadiusDiff && off <= p.circleInclusionRadius)
        {
          if (ns + nl >= int(p.minRepeatability))
            e.push_back({ -1, ns + nl });
        }
        else
        {
          if (ns >= int(p.minRepeatability))
            e.push_back({ t.b, ns });
          if (nl >= int(p.minRepeatability))
            e.push_back({ t.a, nl });
        }
        verdict = e.empty() ? 0 : 1;
      }
    }
    if (verdict < 0 || !sure)
    {
      c.label("unsure");
      continue;
    }
    if (verdict == 0)
    {
      c.label("rejected");
      rejected = true;
      if (!mine.empty())
        c.fail(who + "reported although the parameters exclude it");
      continue;
    }
    c.label("found");
    found = true;
    if (mine.size() != e.size())
      c.fail(who + "reported " + std::to_string(mine.size()) + " times instead of " + std::to_string(e.size()));
    for (const auto& x : e)
    {
      bool match = false;
      for (const auto& q : mine)
        match = match || ((x.first < 0 ? q.size / 2 > t.b - 1.5 && q.size / 2 < t.a + 1.5 : std::abs(q.size / 2 - x.first) < 1.5));
      if (!match)
        c.fail(who + "radius " + std::to_string(mine[0].size / 2));
    }
    for (const auto& q : mine)
      if (!(std::hypot(q.pt.x - t.x, q.pt.y - t.y) < 0.6 || (t.kind == 3 && std::hypot(q.pt.x - t.x - t.ox, q.pt.y - t.y - t.oy) < 0.6) ||
            (t.kind == 3 && e.size() == 1 && std::hypot(q.pt.x - t.x, q.pt.y - t.y) + std::hypot(q.pt.x - t.x - t.ox, q.pt.y - t.y - t.oy) < std::hypot(t.ox, t.oy) + 1.2)))
        c.fail(who + "located at " + std::to_string(q.pt.x) + "," + std::to_string(q.pt.y));
  }
  c.nontrivial(found && rejected);
}
