// Stand-in for services and topics: callbacks in a registry that lives as long as their handles.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <string>
namespace rosshim
{
inline std::map<std::string, std::weak_ptr<std::function<bool()>>>& services()
{
  static std::map<std::string, std::weak_ptr<std::function<bool()>>> s;
  return s;
}
// what happens while the program spins
inline std::function<void()>& spinning()
{
  static std::function<void()> f;
  return f;
}
}  // namespace rosshim
namespace ros
{
class ServiceServer
{
public:
  ServiceServer() {}
  ServiceServer(const std::string& n, const std::shared_ptr<std::function<bool()>>& f) : name_(n), f_(f) {}
  std::string getService() const { return name_; }
  void shutdown() { f_.reset(); }
  explicit operator bool() const { return bool(f_); }

private:
  std::string name_;
  std::shared_ptr<std::function<bool()>> f_;
};
inline bool ok() { return true; }
inline void spin()
{
  if (rosshim::spinning())
    rosshim::spinning()();
}
inline void spinOnce() {}
inline void shutdown() {}
}  // namespace ros
