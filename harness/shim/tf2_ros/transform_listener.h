#pragma once
#include "buffer.h"
namespace tf2_ros
{
class TransformListener
{
public:
  explicit TransformListener(Buffer&, bool = true) {}
};
}  // namespace tf2_ros
