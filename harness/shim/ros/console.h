// Stand-in for ROS logging: messages are recorded, not printed.
#pragma once
#include <cstdarg>
#include <cstdio>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
namespace rosshim
{
struct Log
{
  int info = 0, warn = 0, error = 0;
  std::vector<std::pair<char, std::string>> lines;  // level (i, w, e) and text
  void add(int& n, char level, const std::string& s)
  {
    ++n;
    if (lines.size() < 100000)
      lines.emplace_back(level, s);
  }
  void clear() { *this = Log(); }
};
inline Log& log()
{
  static Log l;
  return l;
}
inline void count(int& n, char level, const char* f, ...)
{
  char buf[4096];
  va_list a;
  va_start(a, f);
  vsnprintf(buf, sizeof(buf), f, a);
  va_end(a);
  log().add(n, level, buf);
}
}  // namespace rosshim
#define ROSSHIM_STREAM(level, args)                                                                                    \
  do                                                                                                                   \
  {                                                                                                                    \
    std::ostringstream rosshim_os;                                                                                     \
    rosshim_os << args;                                                                                                \
    rosshim::log().add(rosshim::log().level, #level[0], rosshim_os.str());                                             \
  } while (0)
#define ROS_DEBUG_STREAM(args) ROSSHIM_STREAM(info, args)
#define ROS_INFO_STREAM(args) ROSSHIM_STREAM(info, args)
#define ROS_WARN_STREAM(args) ROSSHIM_STREAM(warn, args)
#define ROS_ERROR_STREAM(args) ROSSHIM_STREAM(error, args)
#define ROS_FATAL_STREAM(args) ROSSHIM_STREAM(error, args)
#define ROS_DEBUG(...) rosshim::count(rosshim::log().info, 'i', __VA_ARGS__)
#define ROS_INFO(...) rosshim::count(rosshim::log().info, 'i', __VA_ARGS__)
#define ROS_WARN(...) rosshim::count(rosshim::log().warn, 'w', __VA_ARGS__)
#define ROS_ERROR(...) rosshim::count(rosshim::log().error, 'e', __VA_ARGS__)
#define ROS_FATAL(...) rosshim::count(rosshim::log().error, 'e', __VA_ARGS__)
