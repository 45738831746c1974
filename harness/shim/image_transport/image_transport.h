#pragma once
#include <ros/ros.h>
#include <sensor_msgs/Image.h>
namespace rosshim
{
typedef std::function<void(const sensor_msgs::ImageConstPtr&)> OnImage;
inline std::multimap<std::string, std::weak_ptr<OnImage>>& subscribers()
{
  static std::multimap<std::string, std::weak_ptr<OnImage>> s;
  return s;
}
inline std::vector<std::pair<std::string, sensor_msgs::Image>>& published()
{
  static std::vector<std::pair<std::string, sensor_msgs::Image>> p;
  return p;
}
}  // namespace rosshim
namespace image_transport
{
class Subscriber
{
public:
  Subscriber() {}
  Subscriber(const std::string& t, const std::shared_ptr<rosshim::OnImage>& f) : topic_(t), f_(f) {}
  std::string getTopic() const { return topic_; }
  void shutdown() { f_.reset(); }

private:
  std::string topic_;
  std::shared_ptr<rosshim::OnImage> f_;
};
class Publisher
{
public:
  Publisher() {}
  explicit Publisher(const std::string& t) : topic_(t) {}
  std::string getTopic() const { return topic_; }
  uint32_t getNumSubscribers() const { return 1; }
  void publish(const sensor_msgs::Image& m) const
  {
    if (!topic_.empty())
      rosshim::published().emplace_back(topic_, m);
  }
  void publish(const sensor_msgs::ImageConstPtr& m) const { publish(*m); }

private:
  std::string topic_;
};
class ImageTransport
{
public:
  explicit ImageTransport(const ros::NodeHandle&) {}
  template <class T>
  Subscriber subscribe(const std::string& topic, uint32_t, void (T::*f)(const sensor_msgs::ImageConstPtr&), T* obj)
  {
    auto g = std::make_shared<rosshim::OnImage>([f, obj](const sensor_msgs::ImageConstPtr& m) { (obj->*f)(m); });
    rosshim::subscribers().emplace(topic, g);
    return Subscriber(topic, g);
  }
  Publisher advertise(const std::string& topic, uint32_t, bool = false) { return Publisher(topic); }
};
}  // namespace image_transport
