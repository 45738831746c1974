// Stand-in for a node handle: a private parameter server.
#pragma once
#include <map>
#include <memory>
#include <ros/console.h>
#include <ros/exceptions.h>
#include <ros/service.h>
#include <ros/time.h>
#include <xmlrpcpp/XmlRpcValue.h>
namespace ros
{
class NodeHandle
{
public:
  typedef std::map<std::string, XmlRpc::XmlRpcValue> Params;
  static std::shared_ptr<Params> server()
  {
    static std::shared_ptr<Params> s = std::make_shared<Params>();
    return s;
  }
  // a handle of its own, or ("~") of the one private name space of the program
  NodeHandle(const std::string& ns = "") : params_(ns == "~" ? server() : std::make_shared<Params>()) {}
  bool getParam(const std::string& key, XmlRpc::XmlRpcValue& v) const
  {
    auto it = params_->find(key);
    if (it != params_->end())
    {
      v = it->second;
      return true;
    }
    // members of a struct are parameters as well
    const auto slash = key.rfind('/');
    if (slash != std::string::npos)
    {
      XmlRpc::XmlRpcValue parent;
      if (getParam(key.substr(0, slash), parent) && parent.hasMember(key.substr(slash + 1)))
      {
        v = parent[key.substr(slash + 1)];
        return true;
      }
    }
    return false;
  }
  // typed reads as in roscpp: false if absent or of another type (a double may be read from an integer)
  bool getParam(const std::string& key, double& d) const
  {
    XmlRpc::XmlRpcValue v;
    if (!getParam(key, v))
      return false;
    if (v.getType() == XmlRpc::XmlRpcValue::TypeInt)
      d = int(v);
    else if (v.getType() == XmlRpc::XmlRpcValue::TypeDouble)
      d = double(v);
    else
      return false;
    return true;
  }
  template <class T>
  bool getParam(const std::string& key, T& d) const
  {
    XmlRpc::XmlRpcValue v;
    if (!getParam(key, v))
      return false;
    try
    {
      d = static_cast<T&>(v);
    }
    catch (const XmlRpc::XmlRpcException&)
    {
      return false;
    }
    return true;
  }
  bool hasParam(const std::string& key) const
  {
    XmlRpc::XmlRpcValue v;
    return getParam(key, v);
  }
  template <class T>
  bool param(const std::string& key, T& d, const T& def) const
  {
    if (getParam(key, d))
      return true;
    d = def;
    return false;
  }
  void setParam(const std::string& key, const XmlRpc::XmlRpcValue& v) const { (*params_)[key] = v; }

  template <class T, class Req, class Res>
  ServiceServer advertiseService(const std::string& name, bool (T::*f)(Req&, Res&), T* obj)
  {
    auto g = std::make_shared<std::function<bool()>>([f, obj]() {
      Req q;
      Res r;
      return (obj->*f)(q, r);
    });
    rosshim::services()[name] = g;
    return ServiceServer("/" + name, g);
  }

private:
  std::shared_ptr<Params> params_;
};
}  // namespace ros
