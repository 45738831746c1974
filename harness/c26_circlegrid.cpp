// C26: finding modified circle grids in rendered images.
#include "image.h"
#include <rct_image_tools/modified_circle_grid_finder.h>
using namespace geom;
using namespace rct_image_tools;

namespace
{
const bool oneThread = (cv::setNumThreads(1), true);
struct Grid
{
  int rows, cols;
  double small, large;  // radii, unit spacing
  img::View v;
  img::Look l;
  cv::Mat image;
  double minDot = 1e9;  // smallest radius and gap in pixels
  Vector2d centre(int id) const { return v.at(id % cols, rows - 1 - id / cols); }
  int originId() const { return (rows - 1) * cols; }
};
std::string show(const Grid& g)
{
  std::ostringstream o;
  o << g.rows << " rows " << g.cols << " cols, radii " << g.small << "/" << g.large << ", " << g.image.cols << "x" << g.image.rows << " " << (g.l.type ? "colour" : "grey")
    << ", tilt " << g.v.tilt * 180 / M_PI << " roll " << g.v.roll * 180 / M_PI << " deg, ink " << g.l.ink << " paper " << g.l.paper << " around " << g.l.around << " blur " << g.l.blur << " noise " << g.l.noise;
  return o.str();
}
template <class F>
void paintGrid(Case& c, Grid& g, F&& extra)
{
  g.image = img::render(c, g.v, g.l, [&](double x, double y) -> int {
    if (x < -0.9 || y < -0.9 || x > g.cols - 0.1 || y > g.rows - 0.1)
      return -1;
    const double ix = std::round(x), iy = std::round(y);
    if (ix >= 0 && iy >= 0 && ix < g.cols && iy < g.rows)
    {
      const double r = (ix == 0 && iy == 0) ? g.large : g.small;
      if ((x - ix) * (x - ix) + (y - iy) * (y - iy) <= r * r)
        return extra(int(ix), int(iy)) ? 0 : 1;
    }
    return 1;
  });
  for (int i = 0; i < g.rows * g.cols; ++i)
  {
    const double s = g.v.scaleAt(i % g.cols, g.rows - 1 - i / g.cols);
    g.minDot = std::min(g.minDot, s * std::min(g.small, 0.5 * (1 - g.large - g.small)));
  }
}
Grid anyGrid(Case& c, double tiltMax)
{
  Grid g;
  g.rows = c.i(3, c.b(1, 4) ? 12 : 7);
  g.cols = c.i(3, c.b(1, 4) ? 12 : 7);
  g.small = c.r(0.18, 0.3);
  g.large = g.small * c.r(1.3, 1.6);
  g.v = img::anyView(c, -0.9, -0.9, g.cols - 0.1, g.rows - 0.1, tiltMax, 0.6, 0.97);
  // keep the origin dot below the default area limit (5000 px^2)
  double big = 0;
  for (int i = 0; i < g.rows * g.cols; ++i)
  {
    const double x = i % g.cols, y = g.rows - 1 - i / g.cols, r = i == g.originId() ? g.large : g.small;
    big = std::max(big, std::max((g.v.at(x + r, y) - g.v.at(x - r, y)).norm(), (g.v.at(x, y + r) - g.v.at(x, y - r)).norm()) / 2);
  }
  if (big > 35)
    g.v.shrink(35 / big);
  g.l = img::anyLook(c);
  return g;
}
}  // namespace


namespace
{
// runs the finder; false when it threw.  Everything it returns has to be right
bool findAll(Case& c, const Grid& g, const ModifiedCircleGridTargetFinder& finder, double tol, std::string* why = nullptr)
{
  const cv::Mat before = g.image.clone();
  TargetFeatures f;
  bool ok = true;
  try
  {
    f = finder.findTargetFeatures(g.image);
  }
  catch (const std::exception& e)
  {
    ok = false;
    if (why)
      *why = e.what();
    c.label(std::string("error: ") + std::string(e.what()).substr(0, 30));
  }
  c.check(img::sameImage(before, g.image), "input image altered");
  if (!ok)
    return false;
  const int n = g.rows * g.cols;
  c.check(int(f.size()) == n, "number of features is " + std::to_string(f.size()));
  double worst = 0;
  int at = 0;
  for (int i = 0; i < n; ++i)
  {
    const auto it = f.find(unsigned(i));
    c.check(it != f.end() && it->second.size() == 1, "feature " + std::to_string(i) + " missing");
    const double e = (it->second[0] - g.centre(i)).norm();
    if (!(e <= worst))
      worst = e, at = i;
  }
  std::ostringstream o;
  o << "dot " << at << " is reported at " << f.at(at).at(0).transpose() << " instead of " << g.centre(at).transpose();
  c.check(worst <= tol, o.str());
  c.label(worst > 0.5 ? "error above 0.5 px" : worst > 0.25 ? "error 0.25 to 0.5 px" : "error below 0.25 px");
  // the finder belongs to its target: matched to the target points
  const auto corr = finder.target().createCorrespondences(f);
  c.check(int(corr.size()) == n, "number of correspondences");
  for (const auto& k : corr)
  {
    const double s = dynamic_cast<const ModifiedCircleGridTarget&>(finder.target()).spacing;
    const Vector2d e = g.v.at(k.in_target.x() / s, k.in_target.y() / s);
    c.check((e - k.in_image).norm() <= tol + 1e-6, "correspondence pairs a dot with another target point");
  }
  return true;
}
bool everything(int, int) { return true; }
}  // namespace

PBT(C26, found_in_order, "grid seen tilted or rolled by more than 20 degrees", 350, 6000)
{
  Grid g = anyGrid(c, 0.6);
  const bool inverse = c.b(1, 6);
  if (inverse)
    std::swap(g.l.ink, g.l.paper);
  paintGrid(c, g, everything);
  c.note("grid", show(g));
  c.note("smallest", g.minDot);
  if (g.minDot < 4.0)
    c.discard();
  const double roll = std::abs(std::remainder(g.v.roll, 2 * M_PI));
  c.nontrivial(g.v.tilt > 0.35 || roll > 0.35);
  c.label(g.rows == g.cols ? "square" : g.rows > g.cols ? "tall" : "wide");
  c.label(roll < M_PI / 4 ? "upright" : roll > 3 * M_PI / 4 ? "upside down" : "sideways");
  const ModifiedCircleGridTarget target(unsigned(g.rows), unsigned(g.cols), c.b() ? c.r(0.005, 0.5) : 0.025);
  CircleDetectorParams p;
  if (inverse)
    p.circleColor = 255, c.label("light dots");
  if (c.b(1, 4))
    p.nThresholds = c.i(6, 20), p.filterByCircularity = false, p.filterByInertia = c.b(), p.minInertiaRatio = 0.2f;
  const ModifiedCircleGridTargetFinder finder = inverse || c.b() ? ModifiedCircleGridTargetFinder(target, p) : ModifiedCircleGridTargetFinder(target);
  std::string why;
  if (!findAll(c, g, finder, 0.8, &why))
    c.fail("clearly visible grid not found: " + why);
}

PBT(C26, fails_or_right, "difficult view (strong tilt, low contrast, missing dots, distractors) that was found or refused", 250, 6000)
{
  Grid g = anyGrid(c, c.b() ? 1.2 : 0.6);
  const int trouble = c.i(0, 5);
  static const char* names[] = { "tilt", "low contrast", "missing dots", "distractors", "noise", "filters" };
  c.label(names[trouble]);
  c.note("trouble", names[trouble]);
  std::set<std::pair<int, int>> gone;
  CircleDetectorParams p;
  int impossible = 0;
  switch (trouble)
  {
    case 0:
      g.v.shrink(c.r(0.2, 1));
      break;
    case 1:
      g.l.paper = c.r(60, 200), g.l.ink = g.l.paper - c.r(10, 60), g.l.around = c.r(0, 255);
      break;
    case 2:
    {
      const int n = c.i(1, 3);
      for (int i = 0; i < n; ++i)
      {
        int k = c.i(0, g.rows * g.cols - 1);
        gone.insert({ k % g.cols, k / g.cols });
      }
      impossible = 1;
      break;
    }
    case 4:
      g.l.noise = c.r(3, 40);
      break;
    case 5:
      p.filterByArea = true;
      if (c.b())
        p.maxArea = 20, p.minArea = 1;
      else
        p.minArea = 6000, p.maxArea = 1e6;
      impossible = 1;
      break;
    default:
      break;
  }
  paintGrid(c, g, [&](int x, int y) { return !gone.count({ x, y }); });
  if (trouble == 3)
  {
    const int n = c.i(1, 12);
    for (int i = 0; i < n; ++i)
    {
      const cv::Point q(c.i(0, g.image.cols - 1), c.i(0, g.image.rows - 1));
      const int r = c.i(2, 25);
      double clear = 1e9;
      for (int k = 0; k < g.rows * g.cols; ++k)
        clear = std::min(clear, (g.centre(k) - Vector2d(q.x, q.y)).norm() - r);
      // not on a dot
      const double s = 1.2 * (g.v.at(g.large, 0) - g.v.at(0, 0)).norm() + 0.3 * (g.v.at(0, g.large) - g.v.at(0, 0)).norm() + 4;
      if (clear > s)
        cv::circle(g.image, q, r, cv::Scalar::all(c.b(2, 3) ? g.l.ink : g.l.paper), -1, cv::LINE_AA);
    }
  }
  c.note("grid", show(g));
  c.nontrivial(g.minDot > 2);
  const ModifiedCircleGridTargetFinder finder(ModifiedCircleGridTarget(unsigned(g.rows), unsigned(g.cols), 0.025), p);
  const bool ok = findAll(c, g, finder, 1.5);
  c.label(ok ? "found" : "refused");
  if (impossible)
    c.check(!ok, "grid reported although not all of its dots can be seen");
}

PBT(C26, strong_perspective, "near camera, tilted by more than 20 degrees", 80, 4000)
{
  Grid g;
  g.rows = c.i(3, 6);
  g.cols = c.i(3, 6);
  g.small = c.r(0.2, 0.28);
  g.large = g.small * c.r(1.35, 1.6);
  g.v = img::anyView(c, -0.9, -0.9, g.cols - 0.1, g.rows - 0.1, 0.7, 0.8, 0.97, 1.2, 2);
  g.l = img::anyLook(c);
  paintGrid(c, g, everything);
  c.note("grid", show(g));
  c.note("smallest", g.minDot);
  if (g.minDot < 6)
    c.discard();
  c.nontrivial(g.v.tilt > 0.35);
  CircleDetectorParams p;
  p.maxArea = 30000;
  const ModifiedCircleGridTargetFinder finder(ModifiedCircleGridTarget(unsigned(g.rows), unsigned(g.cols), 0.025), p);
  // the image of the centre of a near circle is not the centre of its image
  c.label(findAll(c, g, finder, 3.0) ? "found" : "refused");
}

PBT(C26, small_grids, "grid of one or two rows or columns", 150, 3000)
{
  Grid g;
  g.rows = c.i(1, c.b() ? 2 : 5);
  g.cols = c.i(1, g.rows <= 2 ? 5 : 2);
  g.small = 0.2;
  g.large = 0.3;
  g.v = img::anyView(c, -0.9, -0.9, g.cols - 0.1, g.rows - 0.1, 0.5, 0.3, 0.6);
  double big = (g.v.at(0.3, 0) - g.v.at(-0.3, 0)).norm() / 2;
  if (big > 25)
    g.v.shrink(25 / big);
  g.l = img::anyLook(c);
  paintGrid(c, g, everything);
  c.note("grid", show(g));
  c.nontrivial(std::min(g.rows, g.cols) <= 2);
  const ModifiedCircleGridTargetFinder finder(ModifiedCircleGridTarget(unsigned(g.rows), unsigned(g.cols), 0.025));
  const bool ok = findAll(c, g, finder, 1.5);
  c.label(std::string(ok ? "found " : "refused ") + std::to_string(std::min(g.rows, g.cols)));
}
