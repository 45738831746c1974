// Synthetic images of planar targets, rendered independently of the code under test.
#pragma once
#include "geom.h"
#include <opencv2/core.hpp>
#include <opencv2/imgproc.hpp>

namespace img
{
using geom::Matrix3d;
using geom::Vector2d;
using geom::Vector3d;
using pbt::Case;

// view of a plane: board (x right, y up, seen from the front) -> image
struct View
{
  Matrix3d h, hinv;
  int w = 640, hgt = 480;
  double tilt = 0, roll = 0;
  Vector2d at(double x, double y) const
  {
    const Vector3d p = h * Vector3d(x, y, 1);
    return Vector2d(p.x() / p.z(), p.y() / p.z());
  }
  Vector2d back(double u, double v) const
  {
    const Vector3d p = hinv * Vector3d(u, v, 1);
    return Vector2d(p.x() / p.z(), p.y() / p.z());
  }
  // scales the picture about the centre of the image
  void shrink(double s)
  {
    Matrix3d k = Matrix3d::Identity();
    k(0, 0) = k(1, 1) = s;
    k(0, 2) = (1 - s) * (w - 1) / 2.0;
    k(1, 2) = (1 - s) * (hgt - 1) / 2.0;
    h = k * h;
    hinv = h.inverse();
  }
  // smallest magnification (pixel per board unit) at a board point
  double scaleAt(double x, double y) const
  {
    const double e = 1e-6 * std::abs(h(2, 2) / (std::abs(h(2, 0)) + std::abs(h(2, 1)) + 1e-12) + 1);
    Eigen::Matrix2d j;
    j.col(0) = (at(x + e, y) - at(x - e, y)) / (2 * e);
    j.col(1) = (at(x, y + e) - at(x, y - e)) / (2 * e);
    return j.jacobiSvd().singularValues()(1);
  }
};
// the rectangle [x0,x1]x[y0,y1] of the board appears completely in the image with the given filling
inline View anyView(Case& c, double x0, double y0, double x1, double y1, double tiltMax, double fillMin, double fillMax, double near = 2, double far = 6, bool yDown = false)
{
  View v;
  const int size = c.i(0, 3);
  v.w = size == 0 ? 640 : size == 1 ? 800 : size == 2 ? 480 : 960;
  v.hgt = size == 0 ? 480 : size == 1 ? 600 : size == 2 ? 640 : 540;
  v.tilt = c.r(0, tiltMax);
  const double az = c.r(-M_PI, M_PI);
  v.roll = c.b(1, 3) ? M_PI / 2 * c.i(0, 3) + (c.b() ? c.r(-0.1, 0.1) : 0.0) : c.r(-M_PI, M_PI);
  const double diag = std::hypot(x1 - x0, y1 - y0), dist = diag * c.r(near, far);
  const double fill = c.r(fillMin, fillMax);
  const double ox = c.r(-0.5, 0.5), oy = c.r(-0.5, 0.5);
  Matrix3d flip = Matrix3d::Identity();
  if (!yDown)
    flip(1, 1) = flip(2, 2) = -1;
  const Matrix3d r = geom::expSO3(Vector3d(std::cos(az), std::sin(az), 0) * v.tilt) * geom::expSO3(Vector3d(0, 0, v.roll)) * flip;
  const Vector3d t = Vector3d(0, 0, dist) - r * Vector3d((x0 + x1) / 2, (y0 + y1) / 2, 0);
  Matrix3d h;
  h << r.col(0), r.col(1), t;
  // fit into the image
  double umin = 1e300, umax = -1e300, vmin = 1e300, vmax = -1e300;
  for (double x : { x0, x1 })
    for (double y : { y0, y1 })
    {
      const Vector3d p = h * Vector3d(x, y, 1);
      const double u = p.x() / p.z(), w = p.y() / p.z();
      umin = std::min(umin, u), umax = std::max(umax, u), vmin = std::min(vmin, w), vmax = std::max(vmax, w);
    }
  const double f = fill * std::min(v.w / (umax - umin), v.hgt / (vmax - vmin));
  const double roomx = v.w - f * (umax - umin), roomy = v.hgt - f * (vmax - vmin);
  Matrix3d k = Matrix3d::Identity();
  k(0, 0) = k(1, 1) = f;
  k(0, 2) = v.w / 2.0 - f * (umin + umax) / 2 + ox * roomx - 0.5;
  k(1, 2) = v.hgt / 2.0 - f * (vmin + vmax) / 2 + oy * roomy - 0.5;
  v.h = k * h;
  v.h /= v.h.norm();
  if (v.h(2, 2) < 0)
    v.h = -v.h;
  v.hinv = v.h.inverse();
  return v;
}
// appearance: grey levels of ink, paper and surroundings, illumination gradient, blur, noise
struct Look
{
  double ink = 0, paper = 255, around = 255, gx = 0, gy = 0, blur = 0, noise = 0;
  int type = 0;  // 0 grey, 1 colour, 2 tinted colour
};
inline Look anyLook(Case& c)
{
  Look l;
  l.ink = c.r(0, 30);
  l.paper = 255 - c.r(0, 30);
  l.around = c.b(1, 2) ? l.paper : c.r(0, 255);
  if (c.b(1, 3))
    l.gx = c.r(-0.08, 0.08), l.gy = c.r(-0.08, 0.08);
  if (c.b(1, 3))
    l.blur = c.r(0.3, 0.9);
  if (c.b(1, 3))
    l.noise = c.r(0, 3);
  l.type = c.i(0, 2);
  return l;
}
// paint(x, y): 0 ink, 1 paper, -1 surroundings
template <class F>
cv::Mat render(Case& c, const View& v, const Look& l, F&& paint)
{
  cv::Mat m(v.hgt, v.w, CV_32F);
  uint64_t s = l.noise > 0 ? c.draw(1u << 30) : 0;
  std::vector<float> row(3 * v.w);
  const int S = 4;
  for (int y = 0; y < v.hgt; ++y)
    for (int x = 0; x < v.w; ++x)
    {
      double sum = 0;
      // four corner samples first; the inner ones only where they differ
      int first = 9;
      bool mixed = false;
      auto sample = [&](int i, int j) {
        const Vector2d p = v.back(x - 0.5 + (i + 0.5) / S, y - 0.5 + (j + 0.5) / S);
        return paint(p.x(), p.y());
      };
      for (int i : { 0, S - 1 })
        for (int j : { 0, S - 1 })
        {
          const int k = sample(i, j);
          if (first == 9)
            first = k;
          mixed = mixed || k != first;
        }
      auto level = [&](int k) { return k < 0 ? l.around : k == 0 ? l.ink : l.paper; };
      if (!mixed)
        sum = level(first);
      else
      {
        for (int i = 0; i < S; ++i)
          for (int j = 0; j < S; ++j)
            sum += level(sample(i, j));
        sum /= S * S;
      }
      const double shade = 1.0 - std::abs(l.gx) - std::abs(l.gy) + l.gx * (2.0 * x / v.w - 1) + l.gy * (2.0 * y / v.hgt - 1);
      m.at<float>(y, x) = float(sum * (l.gx == 0 && l.gy == 0 ? 1.0 : shade));
    }
  if (l.blur > 0)
    cv::GaussianBlur(m, m, cv::Size(0, 0), l.blur);
  if (l.noise > 0)
  {
    cv::RNG rng(s + 1);
    for (int y = 0; y < v.hgt; ++y)
      for (int x = 0; x < v.w; ++x)
        m.at<float>(y, x) += float(std::max(-3.0, std::min(3.0, rng.gaussian(1.0))) * l.noise);
  }
  cv::Mat g;
  m.convertTo(g, CV_8U);
  if (l.type == 0)
    return g;
  cv::Mat b, r;
  if (l.type == 2)
  {
    g.convertTo(b, CV_8U, 0.9);
    g.convertTo(r, CV_8U, 0.97);
  }
  else
    b = g.clone(), r = g.clone();
  cv::Mat out;
  cv::merge(std::vector<cv::Mat>{ b, g, r }, out);
  return out;
}
inline bool sameImage(const cv::Mat& a, const cv::Mat& b)
{
  if (a.type() != b.type() || a.size() != b.size())
    return false;
  return a.empty() || cv::norm(a, b, cv::NORM_INF) == 0;
}
}  // namespace img
