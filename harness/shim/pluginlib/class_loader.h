// Stand-in for pluginlib's loader: creates classes of the registry (see class_list_macros.hpp).
#pragma once
#include "class_list_macros.hpp"
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <stdexcept>
namespace pluginlib
{
class PluginlibException : public std::runtime_error
{
public:
  using std::runtime_error::runtime_error;
};
class CreateClassException : public PluginlibException
{
public:
  using PluginlibException::PluginlibException;
};
class LibraryLoadException : public PluginlibException
{
public:
  using PluginlibException::PluginlibException;
};
template <class T>
class ClassLoader
{
public:
  ClassLoader(const std::string&, const std::string&) {}
  boost::shared_ptr<T> createInstance(const std::string& name)
  {
    auto& r = pluginshim::registry<T>();
    auto it = r.find(name);
    if (it == r.end())
      throw LibraryLoadException("According to the loaded plugin descriptions the class " + name + " does not exist");
    std::shared_ptr<T> p = it->second();
    return boost::shared_ptr<T>(p.get(), [p](T*) {});
  }
};
}  // namespace pluginlib
