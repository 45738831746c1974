// Stand-in for the transform buffer: the frames of rosshim::frames(), by their pose in the world.
#pragma once
#include <geometry_msgs/TransformStamped.h>
#include <map>
#include <tf2/exceptions.h>
#include <tf2_eigen/tf2_eigen.h>
namespace rosshim
{
// (kept as matrices: no alignment requirements)
typedef Eigen::Matrix<double, 4, 4, Eigen::DontAlign> Frame;
inline std::map<std::string, Frame>& frames()
{
  static std::map<std::string, Frame> f;
  return f;
}
}  // namespace rosshim
namespace tf2_ros
{
class Buffer
{
public:
  explicit Buffer(ros::Duration = ros::Duration(10)) {}
  // pose of the source frame in the target frame
  geometry_msgs::TransformStamped lookupTransform(const std::string& target, const std::string& source, const ros::Time& time, const ros::Duration = ros::Duration()) const
  {
    auto& f = rosshim::frames();
    for (auto& n : { target, source })
      if (!f.count(n))
        throw tf2::LookupException("\"" + n + "\" passed to lookupTransform argument does not exist.");
    Eigen::Isometry3d t, s;
    t.matrix() = f[target], s.matrix() = f[source];
    geometry_msgs::TransformStamped r = tf2::eigenToTransform(t.inverse() * s);
    r.header.frame_id = target;
    r.header.stamp = time;
    r.child_frame_id = source;
    return r;
  }
  bool canTransform(const std::string& target, const std::string& source, const ros::Time&, const ros::Duration = ros::Duration(), std::string* = nullptr) const
  {
    return rosshim::frames().count(target) && rosshim::frames().count(source);
  }
};
}  // namespace tf2_ros
