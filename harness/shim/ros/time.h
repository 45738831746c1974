#pragma once
#include <cstdint>
namespace ros
{
struct Duration
{
  double s = 0;
  Duration() {}
  explicit Duration(double t) : s(t) {}
  double toSec() const { return s; }
  bool sleep() const { return true; }
};
struct Time
{
  uint32_t sec = 0, nsec = 0;
  Time() {}
  Time(uint32_t s, uint32_t n) : sec(s), nsec(n) {}
  static Time now() { return Time(1, 0); }
  bool isZero() const { return sec == 0 && nsec == 0; }
};
}  // namespace ros
