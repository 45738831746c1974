// C20 (homography check) and C21 (correspondence samplers).
#include "geom.h"
#include <memory>
#include <rct_optimizations/validation/homography_validation.h>
using namespace geom;
using namespace rct_optimizations;

namespace
{
struct Fixed : CorrespondenceSampler
{
  std::vector<std::size_t> ix;
  std::vector<std::size_t> getSampleCorrespondenceIndices() const override { return ix; }
};

struct Planar
{
  std::vector<Vector2d> target;
  std::vector<Vector3d> image;  // z = 1 for camera images; points in space for 3D sensors
  std::vector<std::size_t> sample;
  std::unique_ptr<CorrespondenceSampler> sampler;
  double size = 1;      // of the image
  double tz = 0;        // height of the target plane
};

// smallest singular value of the (normalised) equations of the sample, relative to the largest
double determined(const Planar& p)
{
  const std::size_t n = p.sample.size();
  Vector2d ct(0, 0), ci(0, 0);
  for (std::size_t i : p.sample)
  {
    ct += p.target[i];
    ci += p.image[i].head<2>() / p.image[i].z();
  }
  ct /= double(n);
  ci /= double(n);
  double st = 1e-300, si = 1e-300;
  for (std::size_t i : p.sample)
  {
    st = std::max(st, (p.target[i] - ct).norm());
    si = std::max(si, (p.image[i].head<2>() / p.image[i].z() - ci).norm());
  }
  MatrixXd A(2 * n, 9);
  for (std::size_t k = 0; k < n; ++k)
  {
    const Vector2d t = (p.target[p.sample[k]] - ct) / st;
    const Vector2d q = (p.image[p.sample[k]].head<2>() / p.image[p.sample[k]].z() - ci) / si;
    A.row(2 * k) << -t.x(), -t.y(), -1, 0, 0, 0, q.x() * t.x(), q.x() * t.y(), q.x();
    A.row(2 * k + 1) << 0, 0, 0, -t.x(), -t.y(), -1, q.y() * t.x(), q.y() * t.y(), q.y();
  }
  Eigen::JacobiSVD<MatrixXd> svd(A);
  return svd.singularValues()(7) / svd.singularValues()(0);
}

Planar generate(Case& c, bool space)
{
  Planar p;
  const bool grid = c.b();
  int rows = 0, cols = 0, stride = 1;
  const double side = c.logr(0.05, 20);
  if (grid)
  {
    rows = c.i(2, 8);
    cols = c.i(2, 8);
    stride = c.pick({ 1, 4, 1, 2, 3 });
    if (rows * cols < 8)
      c.discard();
    for (int i = 0; i < rows; ++i)
      for (int j = 0; j < cols; ++j)
        for (int k = 0; k < stride; ++k)
          p.target.push_back(side * Vector2d(j + 0.4 * (k % 2), i + 0.4 * (k / 2)) / std::max(rows, cols));
  }
  else
    for (int n = c.i(8, 60); n > 0; --n)
      p.target.push_back(side * Vector2d(c.r(-0.5, 0.5), c.r(-0.5, 0.5)));
  if (c.b(1, 3))
  {
    const Vector2d off(side * c.r(-1, 1), side * c.r(-1, 1));
    for (auto& t : p.target)
      t += off;
  }
  p.tz = c.b(1, 4) ? c.r(-1, 1) : 0;
  const std::size_t n = p.target.size();
  double reach = 1e-9;
  for (const auto& t : p.target)
    reach = std::max(reach, t.norm());

  if (space || c.b())
  {
    // a plane in front of the sensor
    const Matrix3d r = c.b() ? expSO3(dir(c) * c.r(0, 1.0)) : anyRot(c, "plane");
    Vector3d at = vec(c, reach);
    at.z() = reach * c.r(1.3, 6);
    for (const auto& t : p.target)
    {
      p.image.push_back(r * Vector3d(t.x(), t.y(), 0) + at);
      if (p.image.back().z() < 0.1 * reach)
        c.discard();
    }
    if (std::abs(r.col(2).dot(at.normalized())) < 0.1)
      c.discard();  // seen from the side
    if (!space)
    {
      const double f = c.logr(50, 3000), cx = c.r(0, 1000), cy = c.r(0, 1000);
      for (auto& q : p.image)
        q = Vector3d(f * q.x() / q.z() + cx, f * q.y() / q.z() + cy, 1);
    }
    else if (c.b(1, 8))
    {
      for (auto& q : p.image)
        q.z() *= -1;  // a sensor that looks along its negative axis
      c.label("negative depth");
    }
  }
  else
  {
    // any projective map that keeps the points in view
    Eigen::Matrix2d a;
    a << c.r(-1, 1), c.r(-1, 1), c.r(-1, 1), c.r(-1, 1);
    if (std::abs(a.determinant()) < 0.05)
      c.discard();
    a *= c.logr(1, 1000) / reach;
    const Vector2d h = Vector2d(c.r(-1, 1), c.r(-1, 1)) * (0.55 / reach);
    const Vector2d t0(c.r(-1000, 1000), c.r(-1000, 1000));
    for (const auto& t : p.target)
    {
      const Vector2d q = (a * t + t0) / (1 + h.dot(t));
      p.image.emplace_back(q.x(), q.y(), 1);
    }
  }
  for (const auto& q : p.image)
    p.size = std::max(p.size, q.head<2>().norm());

  const int kind = grid ? c.i(0, 2) : c.i(1, 2);
  if (kind == 0)
  {
    p.sampler = std::make_unique<GridCorrespondenceSampler>(rows, cols, stride);
    p.sample = { 0, std::size_t((cols - 1) * stride), std::size_t((rows - 1) * cols * stride), std::size_t((rows * cols - 1) * stride) };
    c.label("grid sampler");
  }
  else if (kind == 1)
  {
    p.sampler = std::make_unique<RandomCorrespondenceSampler>(n, std::size_t(c.i(4, int(n / 2))), unsigned(c.i(0, 1000000)));
    p.sample = p.sampler->getSampleCorrespondenceIndices();
    c.label("random sampler");
  }
  else
  {
    auto s = std::make_unique<Fixed>();
    const auto pm = c.perm(n);
    s->ix.assign(pm.begin(), pm.begin() + c.i(4, int(n / 2)));
    p.sample = s->ix;
    p.sampler = std::move(s);
    c.label("own sampler");
  }
  // The points of the sample have to determine the map
  for (std::size_t i : p.sample)
    c.check(i < n, "index of the sample out of range");
  if (!(determined(p) > 3e-3))
    c.discard();
  return p;
}

VectorXd errors(const Planar& p, bool space)
{
  if (space)
  {
    Correspondence3D3D::Set s;
    for (std::size_t i = 0; i < p.target.size(); ++i)
      s.emplace_back(p.image[i], Vector3d(p.target[i].x(), p.target[i].y(), p.tz));
    return calculateHomographyError(s, *p.sampler);
  }
  Correspondence2D3D::Set s;
  for (std::size_t i = 0; i < p.target.size(); ++i)
    s.emplace_back(p.image[i].head<2>(), Vector3d(p.target[i].x(), p.target[i].y(), p.tz));
  return calculateHomographyError(s, *p.sampler);
}

void perfect(Case& c, bool space)
{
  const Planar p = generate(c, space);
  const VectorXd e = errors(p, space);
  c.nontrivial();
  c.note("points", p.target.size());
  c.check(e.size() == long(p.target.size()), "one error per correspondence");
  for (int i = 0; i < e.size(); ++i)
  {
    c.check(e(i) >= 0, "error of correspondence " + std::to_string(i) + " is negative or not a number");
    c.le(e(i), 1e-9 * p.size, "error of perfect correspondence " + std::to_string(i));
  }
}

void displaced(Case& c, bool space)
{
  Planar p = generate(c, space);
  const std::set<std::size_t> s(p.sample.begin(), p.sample.end());
  std::vector<double> want(p.target.size(), 0.0);
  const double share = c.u();
  int moved = 0;
  for (std::size_t i = 0; i < p.target.size(); ++i)
    if (!s.count(i) && (c.u() < share || moved == 0))
    {
      const double m = p.size * c.logr(1e-4, 1), a = c.r(0, 2 * M_PI);
      p.image[i].head<2>() += m * Vector2d(std::cos(a), std::sin(a));
      want[i] = m;
      ++moved;
    }
  c.nontrivial(moved > 0);
  c.note("displaced", moved);
  const VectorXd e = errors(p, space);
  c.check(e.size() == long(p.target.size()), "one error per correspondence");
  for (int i = 0; i < e.size(); ++i)
    c.near(e(i), want[i], 1e-9 * (p.size + want[i]), "error of correspondence " + std::to_string(i) + (want[i] > 0 ? " (displaced)" : ""));
}
}  // namespace

PBT(C20, perfect2d, "projective images of planar targets", 6000, 150000) { perfect(c, false); }
PBT(C20, perfect3d, "planar targets seen by a 3D sensor", 6000, 150000) { perfect(c, true); }
PBT(C20, displaced2d, "at least one feature outside of the sample displaced", 6000, 150000) { displaced(c, false); }
PBT(C20, displaced3d, "at least one feature outside of the sample displaced", 6000, 150000) { displaced(c, true); }

PBT(C20, sampled_displaced, "features of the sample displaced as well", 4000, 100000)
{
  const bool space = c.b();
  Planar p = generate(c, space);
  for (auto& q : p.image)
    q.head<2>() += p.size * c.logr(1e-4, 1e-1) * Vector2d(c.r(-1, 1), c.r(-1, 1));
  c.nontrivial();
  const VectorXd e = errors(p, space);
  c.check(e.size() == long(p.target.size()), "one error per correspondence");
  for (int i = 0; i < e.size(); ++i)
    c.check(!(e(i) < 0), "negative error");
  // errors depend on the data alone
  c.check((errors(p, space).array() == e.array()).all() || !e.allFinite(), "a second call gives other errors");
}

PBT(C20, too_few, "fewer correspondences than twice the sample, or than the sample refers to", 3000, 60000)
{
  const bool space = c.b();
  Planar p = generate(c, space);
  const std::size_t n = p.sample.size();
  const std::size_t top = *std::max_element(p.sample.begin(), p.sample.end());
  const std::size_t keep = std::size_t(c.i(0, int(p.target.size())));
  p.target.resize(keep);
  p.image.resize(keep);
  const bool bad = keep < 2 * n || keep <= top;
  c.label(bad ? "too few" : "enough");
  c.nontrivial(bad);
  bool threw = false;
  try
  {
    const VectorXd e = errors(p, space);
    c.check(e.size() == long(keep), "one error per correspondence");
  }
  catch (const std::exception&)
  {
    threw = true;
  }
  c.check(threw == bad, bad ? "too few correspondences were accepted" : "enough correspondences were refused");
}

PBT(C21, grid, "grids with four different corners", 20000, 400000)
{
  const int m = c.pick({ 6, 30, 1000 });
  const std::size_t rows = std::size_t(c.i(0, m)), cols = std::size_t(c.i(0, m)), stride = std::size_t(c.i(1, 6));
  c.note("grid", std::to_string(rows) + " x " + std::to_string(cols) + " x " + std::to_string(stride));
  const bool bad = rows * cols < 8 || rows < 2 || cols < 2;
  c.label(bad ? "refused" : "sampled");
  c.nontrivial(!bad);
  std::vector<std::size_t> got;
  try
  {
    const GridCorrespondenceSampler s(rows, cols, stride);
    c.check(s.rows == rows && s.cols == cols && s.stride == stride, "members");
    got = s.getSampleCorrespondenceIndices();
    c.check(got == s.getSampleCorrespondenceIndices(), "a second call gives other indices");
  }
  catch (const std::exception&)
  {
    c.check(bad, "a valid grid was refused");
    return;
  }
  c.check(!bad, "a grid without enough points or corners was accepted");
  const std::set<std::size_t> want{ 0, (cols - 1) * stride, (rows - 1) * cols * stride, ((rows - 1) * cols + cols - 1) * stride };
  c.check(got.size() == 4 && std::set<std::size_t>(got.begin(), got.end()) == want, "not the first features of the four corners");
}

PBT(C21, random, "valid numbers of samples", 20000, 400000)
{
  const int n = c.i(0, c.pick({ 12, 100, 2000 }));
  const int k = c.b(1, 4) ? n : c.i(0, n + 3);
  const unsigned seed = unsigned(c.draw(1ull << 32));
  const bool bad = k < 4 || k > n;
  c.note("samples", std::to_string(k) + " of " + std::to_string(n) + " seed " + std::to_string(seed));
  c.nontrivial(!bad);
  c.label(bad ? "refused" : k == n ? "all" : "some");
  std::vector<std::size_t> got;
  try
  {
    const RandomCorrespondenceSampler s(n, k, seed);
    got = s.getSampleCorrespondenceIndices();
    c.check(s.getSampleCorrespondenceIndices() == got, "a second call gives other indices");
    c.check(RandomCorrespondenceSampler(n, k, seed).getSampleCorrespondenceIndices() == got, "the same seed gives other indices");
    const RandomCorrespondenceSampler unseeded(n, k);
    const auto u = unseeded.getSampleCorrespondenceIndices();
    c.check(u == unseeded.getSampleCorrespondenceIndices(), "a second call gives other indices");
    c.check(std::set<std::size_t>(u.begin(), u.end()).size() == std::size_t(k), "repeated indices");
  }
  catch (const std::exception&)
  {
    c.check(bad, "a valid number of samples was refused");
    return;
  }
  c.check(!bad, "an invalid number of samples was accepted");
  c.check(got.size() == std::size_t(k), "number of indices");
  for (std::size_t i : got)
    c.check(i < std::size_t(n), "index out of range");
  c.check(std::set<std::size_t>(got.begin(), got.end()).size() == got.size(), "repeated indices");
}

PBT(C21, uniform, "2000 seeds each", 60, 600)
{
  const int n = c.i(4, 30), k = c.i(4, n), first = c.i(0, 1000000000), m = 2000;
  c.nontrivial(k < n);
  std::vector<int> count(n, 0);
  std::set<std::vector<std::size_t>> different;
  for (int s = 0; s < m; ++s)
  {
    const auto ix = RandomCorrespondenceSampler(n, k, unsigned(first + s)).getSampleCorrespondenceIndices();
    for (std::size_t i : ix)
      ++count.at(i);
    different.insert(ix);
  }
  const double q = double(k) / n, sd = std::sqrt(m * q * (1 - q));
  for (int i = 0; i < n; ++i)
    c.near(count[i], m * q, 7 * sd + 1e-9, "index " + std::to_string(i) + " is not chosen with uniform probability");
  if (k < n)
    c.check(different.size() > 2, "the seed has no effect");
}
