#pragma once
#include <ros/console.h>
#include <ros/exceptions.h>
#include <ros/node_handle.h>
#include <ros/service.h>
#include <ros/time.h>
namespace ros
{
namespace init_options
{
enum InitOption
{
  NoSigintHandler = 1,
  AnonymousName = 2,
  NoRosout = 4
};
}
inline void init(int&, char**, const std::string&, uint32_t = 0) {}
}  // namespace ros
