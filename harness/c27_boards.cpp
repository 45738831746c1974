// C27: finding ArUco grids and ChArUco boards in rendered images.
#include "image.h"
#include <opencv2/aruco/charuco.hpp>
#include <rct_image_tools/aruco_finder.h>
#include <rct_image_tools/charuco_finder.h>
using namespace geom;
using namespace rct_image_tools;

namespace
{
const bool oneThread = (cv::setNumThreads(1), true);
struct Quad
{
  int id;
  double x, y, s;  // upper left corner and side, board frame (x right, y down as in OpenCV 4.6)
};
struct Board
{
  bool charuco = false;
  int rows = 0, cols = 0, dict = 0, first = 0;
  double marker = 0, step = 0;  // aruco: marker + gap, charuco: square
  std::vector<Quad> quads;      // markers of the board
  std::vector<Quad> foreign;    // painted, but not of the board
  std::vector<Eigen::Vector4d> cover;  // occlusions x0 y0 x1 y1
  double coverGrey = 128;
  std::map<int, cv::Mat> bits;  // id -> modules, first row at the top
  double x0, y0, x1, y1;        // painted area with margin
  img::View v;
  img::Look l;
  cv::Mat image;
  bool covered(double x, double y, double margin) const
  {
    for (const auto& k : cover)
      if (x > k[0] - margin && x < k[2] + margin && y > k[1] - margin && y < k[3] + margin)
        return true;
    return false;
  }
  bool covered(const Quad& q, double margin) const
  {
    for (const auto& k : cover)
      if (q.x + q.s > k[0] - margin && q.x < k[2] + margin && q.y + q.s > k[1] - margin && q.y < k[3] + margin)
        return true;
    return false;
  }
};
const int dicts[] = { cv::aruco::DICT_4X4_50, cv::aruco::DICT_5X5_100, cv::aruco::DICT_6X6_250, cv::aruco::DICT_6X6_1000, cv::aruco::DICT_7X7_50, cv::aruco::DICT_ARUCO_ORIGINAL };
const int modules[] = { 4, 5, 6, 6, 7, 5 }, counts[] = { 50, 100, 250, 1000, 50, 1024 };
void loadBits(Board& b)
{
  const auto d = cv::aruco::getPredefinedDictionary(dicts[b.dict]);
  for (auto* l : { &b.quads, &b.foreign })
    for (const auto& q : *l)
      if (!b.bits.count(q.id))
      {
        cv::Mat m;
        cv::aruco::drawMarker(d, q.id, modules[b.dict] + 2, m, 1);
        b.bits[q.id] = m;
      }
}
int paintAt(const Board& b, double x, double y, bool& grey)
{
  grey = false;
  if (x < b.x0 || y < b.y0 || x > b.x1 || y > b.y1)
    return -1;
  for (const auto& k : b.cover)
    if (x > k[0] && x < k[2] && y > k[1] && y < k[3])
    {
      grey = true;
      return 2;
    }
  for (const auto* l : { &b.quads, &b.foreign })
    for (const auto& q : *l)
      if (x >= q.x && y >= q.y && x < q.x + q.s && y < q.y + q.s)
      {
        const cv::Mat& m = b.bits.at(q.id);
        const int n = m.rows, col = std::min(n - 1, int((x - q.x) / q.s * n)), row = std::min(n - 1, int((y - q.y) / q.s * n));
        return m.at<uchar>(row, col) ? 1 : 0;
      }
  if (b.charuco && x >= 0 && y >= 0 && x < b.cols * b.step && y < b.rows * b.step)
  {
    // squares without a marker are black
    const double cx = (std::floor(x / b.step) + 0.5) * b.step, cy = (std::floor(y / b.step) + 0.5) * b.step;
    for (const auto& q : b.quads)
      if (std::abs(q.x + q.s / 2 - cx) < 0.25 * b.step && std::abs(q.y + q.s / 2 - cy) < 0.25 * b.step)
        return 1;
    return 0;
  }
  return 1;
}
// board geometry from the target definition (C25 checks it against the documented layout)
Board anyBoard(Case& c, bool charuco)
{
  Board b;
  b.charuco = charuco;
  b.dict = c.i(0, 5);
  b.rows = c.i(charuco ? 3 : 1, charuco ? 7 : 5);
  b.cols = c.i(charuco ? 3 : 1, charuco ? 7 : 5);
  while (counts[b.dict] < b.rows * b.cols + 10)
    b.dict = (b.dict + 1) % 6;
  b.step = 1;
  b.marker = charuco ? c.r(0.55, 0.75) : c.r(0.6, 0.75);
  if (!charuco && c.b(1, 3))
    b.first = c.i(0, std::min(40, counts[b.dict] - b.rows * b.cols - 5));
  if (!charuco)
  {
    for (int r = 0; r < b.rows; ++r)
      for (int k = 0; k < b.cols; ++k)
        b.quads.push_back({ b.first + r * b.cols + k, k * b.step, r * b.step, b.marker });
    b.x0 = b.y0 = -(b.step - b.marker);
    b.x1 = b.cols * b.step;
    b.y1 = b.rows * b.step;
  }
  else
  {
    // white squares carry the markers, numbered along the rows from the top; the top left square is black
    int id = 0;
    for (int r = 0; r < b.rows; ++r)
      for (int k = 0; k < b.cols; ++k)
        if ((r + k) % 2 == 1)
          b.quads.push_back({ id++, k + 0.5 - b.marker / 2, r + 0.5 - b.marker / 2, b.marker });
    b.x0 = b.y0 = -0.4;
    b.x1 = b.cols + 0.4;
    b.y1 = b.rows + 0.4;
  }
  return b;
}
std::shared_ptr<TargetFinder> finderOf(const Board& b, double unit)
{
  if (b.charuco)
    return std::make_shared<CharucoGridBoardTargetFinder>(CharucoGridTarget(b.rows, b.cols, float(b.step * unit), float(b.marker * unit), dicts[b.dict]));
  if (b.first == 0)
    return std::make_shared<ArucoGridBoardTargetFinder>(ArucoGridTarget(b.rows, b.cols, float(b.marker * unit), float((b.step - b.marker) * unit), dicts[b.dict]));
  return std::make_shared<ArucoGridBoardTargetFinder>(
      ArucoGridTarget(cv::aruco::GridBoard::create(b.cols, b.rows, float(b.marker * unit), float((b.step - b.marker) * unit), cv::aruco::getPredefinedDictionary(dicts[b.dict]), b.first)));
}
std::string show(const Board& b)
{
  std::ostringstream o;
  o << (b.charuco ? "charuco " : "aruco ") << b.rows << " rows " << b.cols << " cols, dictionary " << dicts[b.dict] << " first " << b.first << " marker " << b.marker << ", " << b.image.cols << "x" << b.image.rows
    << (b.l.type ? " colour" : " grey") << ", tilt " << b.v.tilt * 180 / M_PI << " roll " << b.v.roll * 180 / M_PI << ", occlusions " << b.cover.size() << " foreign markers " << b.foreign.size() << " blur " << b.l.blur << " noise " << b.l.noise;
  return o.str();
}
void paint(Case& c, Board& b)
{
  loadBits(b);
  b.image = img::render(c, b.v, b.l, [&](double x, double y) {
    bool g;
    const int k = paintAt(b, x, y, g);
    return k;
  });
}
// smallest side of a module in the image
double moduleSize(const Board& b)
{
  double m = 1e9;
  for (const auto& q : b.quads)
    m = std::min(m, b.v.scaleAt(q.x + q.s / 2, q.y + q.s / 2) * q.s / (modules[b.dict] + 2));
  return m;
}
// the corners of a feature in the board frame; empty when the identity is not of the board
std::vector<Vector2d> truth(const Board& b, unsigned id)
{
  if (b.charuco)
  {
    const int n = (b.rows - 1) * (b.cols - 1);
    if (int(id) >= n)
      return {};
    return { Vector2d(id % (b.cols - 1) + 1, id / (b.cols - 1) + 1) };
  }
  for (const auto& q : b.quads)
    if (q.id == int(id))
      return { Vector2d(q.x, q.y), Vector2d(q.x + q.s, q.y), Vector2d(q.x + q.s, q.y + q.s), Vector2d(q.x, q.y + q.s) };
  return {};
}
bool find(Case& c, const Board& b, const TargetFinder& f, TargetFeatures& t)
{
  const cv::Mat before = b.image.clone();
  bool ok = true;
  try
  {
    t = f.findTargetFeatures(b.image);
  }
  catch (const std::exception& e)
  {
    c.label("refused");
    ok = false;
    t.clear();
  }
  c.check(img::sameImage(before, b.image), "input image altered");
  return ok;
}
// every reported feature is of the board and, when nothing covers it, where it is seen; returns the worst error
void checkFeatures(Case& c, const Board& b, const TargetFinder& f, const TargetFeatures& t, double unit, double tol, double loose)
{
  double worst = 0;
  for (const auto& e : t)
  {
    const auto k = truth(b, e.first);
    if (k.empty())
      c.fail("identity " + std::to_string(e.first) + " is not on the board");
    if (e.second.size() != k.size())
      c.fail("feature " + std::to_string(e.first) + " has " + std::to_string(e.second.size()) + " points");
    for (std::size_t j = 0; j < k.size(); ++j)
    {
      const Vector2d p = b.v.at(k[j].x(), k[j].y());
      bool touched;
      if (b.charuco)
        touched = b.covered(Quad{ 0, k[j].x() - 1, k[j].y() - 1, 2 }, 0.05);
      else
      {
        touched = false;
        for (const auto& q : b.quads)
          if (q.id == int(e.first))
            touched = b.covered(q, 0.1);
      }
      const double err = (p - e.second[j]).norm();
      if (!touched)
        worst = std::max(worst, err);
      else
        c.label("partly covered feature reported");
      if (!(err <= (touched ? loose : tol)))
      {
        std::ostringstream o;
        o << "feature " << e.first << " corner " << j << " reported at " << e.second[j].transpose() << ", seen at " << p.transpose();
        c.fail(o.str());
      }
    }
  }
  if (!t.empty())
    c.label((b.charuco ? "charuco " : "aruco ") + std::string(worst > 2 ? "error above 2 px" : worst > 1 ? "error 1 to 2 px" : worst > 0.5 ? "error 0.5 to 1 px" : "error below 0.5 px"));
  // paired with the right target points
  const auto corr = f.target().createCorrespondences(t);
  std::size_t n = 0;
  for (const auto& e : t)
    n += e.second.size();
  c.check(corr.size() == n, "number of correspondences");
  std::size_t i = 0;
  for (const auto& e : t)
    for (std::size_t j = 0; j < e.second.size(); ++j, ++i)
    {
      const Vector2d w = truth(b, e.first)[j] * unit;
      c.check(corr[i].in_image == e.second[j], "image point of a correspondence");
      c.check((corr[i].in_target - Vector3d(w.x(), w.y(), 0)).norm() < 1e-5 * unit * 10, "target point of a correspondence");
    }
}
std::size_t total(const Board& b) { return b.charuco ? std::size_t(b.rows - 1) * (b.cols - 1) : b.quads.size(); }
Board clearBoard(Case& c, double tilt, double fillMin)
{
  const bool charuco = c.b();
  c.label(charuco ? "charuco" : "aruco");
  Board b = anyBoard(c, charuco);
  b.v = img::anyView(c, b.x0, b.y0, b.x1, b.y1, tilt, fillMin, 0.97, 2, 6, true);
  b.l = img::anyLook(c);
  return b;
}
}  // namespace


namespace
{
// the features nothing covers are there; blurred or noisy small boards may miss some
void checkComplete(Case& c, const Board& b, const TargetFeatures& t, double px)
{
  std::size_t visible = 0, missed = 0;
  std::string which;
  for (unsigned id = 0; id < unsigned(b.first) + unsigned(b.rows * b.cols); ++id)
  {
    const auto k = truth(b, id);
    if (k.empty())
      continue;
    bool free = true;
    if (b.charuco)
      free = !b.covered(Quad{ 0, k[0].x() - 1, k[0].y() - 1, 2 }, 0.1);
    else
      for (const auto& q : b.quads)
        if (q.id == int(id))
          free = !b.covered(q, 0.2);
    visible += free;
    if (free && !t.count(id))
      ++missed, which += " " + std::to_string(id);
  }
  const bool clear = px >= 8 || (b.l.blur == 0 && b.l.noise == 0);
  if (missed)
    c.label("feature missed");
  if (clear ? missed > 0 : missed * 2 > visible)
    c.fail("visible features not reported:" + which);
}
double tolerance(const Board& b) { return b.charuco ? 2.0 : 3.0; }
}  // namespace

PBT(C27, complete, "board seen tilted or rolled by more than 20 degrees", 700, 20000)
{
  Board b = clearBoard(c, 0.6, 0.6);
  const double unit = c.b() ? 0.02 : c.r(0.005, 0.2);
  paint(c, b);
  c.note("board", show(b));
  const double px = moduleSize(b);
  if (px < 3.2)
    c.discard();
  c.nontrivial(b.v.tilt > 0.35 || std::abs(std::remainder(b.v.roll, 2 * M_PI)) > 0.35);
  const auto f = finderOf(b, unit);
  TargetFeatures t;
  if (!find(c, b, *f, t))
    c.fail("board not found");
  checkFeatures(c, b, *f, t, unit, tolerance(b), 0);
  checkComplete(c, b, t, px);
}

PBT(C27, occluded, "something covered and something found", 500, 15000)
{
  Board b = clearBoard(c, 0.5, 0.7);
  const int n = c.i(1, 3);
  for (int i = 0; i < n; ++i)
  {
    const double w = c.r(0.1, 0.7) * b.cols, h = c.r(0.1, 0.7) * b.rows, x = c.r(-0.3, b.cols), y = c.r(-0.3, b.rows);
    b.cover.push_back(Eigen::Vector4d(x, y, x + w, y + h));
  }
  paint(c, b);
  // coverings are painted as paper by default; give them their own grey
  const int grey = c.pick({ 128, 255, 60, 200 });
  for (int y = 0; y < b.image.rows; ++y)
    for (int x = 0; x < b.image.cols; ++x)
    {
      const Vector2d p = b.v.back(x, y);
      if (p.x() >= b.x0 && p.y() >= b.y0 && p.x() <= b.x1 && p.y() <= b.y1 && b.covered(p.x(), p.y(), 0))
        for (int ch = 0; ch < b.image.channels(); ++ch)
          b.image.ptr<uchar>(y)[x * b.image.channels() + ch] = uchar(grey);
    }
  c.note("board", show(b));
  c.note("covering grey", grey);
  const double px = moduleSize(b);
  if (px < 4)
    c.discard();
  const auto f = finderOf(b, 0.02);
  TargetFeatures t;
  find(c, b, *f, t);
  checkFeatures(c, b, *f, t, 0.02, tolerance(b), 1e9);
  checkComplete(c, b, t, px);
  c.nontrivial(!t.empty() && t.size() < total(b));
}

PBT(C27, foreign_markers, "markers of the same dictionary that are not on the board", 400, 12000)
{
  const bool charuco = c.b(1, 3), absent = c.b(1, 3);
  c.label(charuco ? "charuco" : "aruco");
  c.label(absent ? "board absent" : "board present");
  Board b = anyBoard(c, charuco);
  const int last = charuco ? int(b.quads.size()) : b.first + int(b.quads.size());
  // a column of foreign markers on the right
  for (int r = 0; r < b.rows; ++r)
  {
    int id = b.first > 0 && c.b() ? c.i(0, b.first - 1) : std::min(counts[b.dict] - 1, last + c.i(0, 8));
    b.foreign.push_back({ id, b.cols + (charuco ? 0.6 : 0.2), double(r), b.marker });
  }
  b.x1 = b.cols + (charuco ? 1.8 : 1.4);
  b.v = img::anyView(c, b.x0, b.y0, b.x1, b.y1, 0.5, 0.7, 0.97, 2, 6, true);
  b.l = img::anyLook(c);
  if (absent)
    b.cover.push_back(Eigen::Vector4d(b.x0, b.y0, b.cols + (charuco ? 0.4 : 0.05), b.y1)), b.coverGrey = 255;
  paint(c, b);
  c.note("board", show(b));
  const double px = moduleSize(b);
  if (px < 3.5)
    c.discard();
  c.nontrivial();
  const auto f = finderOf(b, 0.02);
  TargetFeatures t;
  find(c, b, *f, t);
  if (absent)
    c.check(t.empty(), "features of a board that is not in the image");
  checkFeatures(c, b, *f, t, 0.02, tolerance(b), 0);
  if (!absent)
    checkComplete(c, b, t, px);
}

PBT(C27, no_board, "image with structure but no marker", 300, 10000)
{
  Board b = anyBoard(c, c.b());
  b.v.w = c.i(100, 640), b.v.hgt = c.i(100, 480);
  b.image = cv::Mat(b.v.hgt, b.v.w, c.b() ? CV_8UC1 : CV_8UC3, cv::Scalar::all(c.i(0, 255)));
  const int kind = c.i(0, 3);
  static const char* names[] = { "plain", "squares", "discs", "stripes" };
  c.label(names[kind]);
  c.note("image", names[kind]);
  c.note("board", show(b));
  c.nontrivial(kind > 0);
  const int step = c.i(12, 60), ink = c.i(0, 255);
  for (int y = 0; y < b.v.hgt && kind; y += 2 * step)
    for (int x = 0; x < b.v.w; x += 2 * step)
    {
      if (kind == 1)
        cv::rectangle(b.image, cv::Rect(x + step / 2, y + step / 2, step, step), cv::Scalar::all(ink), -1);
      else if (kind == 2)
        cv::circle(b.image, cv::Point(x + step, y + step), step / 2, cv::Scalar::all(ink), -1, cv::LINE_AA);
      else
        cv::line(b.image, cv::Point(x, 0), cv::Point(x + step, b.v.hgt), cv::Scalar::all(ink), step / 3 + 1);
    }
  const auto f = finderOf(b, 0.02);
  TargetFeatures t;
  const bool ok = find(c, b, *f, t);
  c.check(!ok || t.empty(), "features without a board");
}
