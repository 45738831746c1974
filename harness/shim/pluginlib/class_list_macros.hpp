// Stand-in for pluginlib: exported classes are entered in a registry by name.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <string>
namespace pluginshim
{
template <class B>
std::map<std::string, std::function<std::shared_ptr<B>()>>& registry()
{
  static std::map<std::string, std::function<std::shared_ptr<B>()>> r;
  return r;
}
template <class D, class B>
struct Export
{
  Export(const char* n)
  {
    registry<B>()[n] = []() { return std::static_pointer_cast<B>(std::make_shared<D>()); };
  }
};
}  // namespace pluginshim
#define PLUGINSHIM_CAT2(a, b) a##b
#define PLUGINSHIM_CAT(a, b) PLUGINSHIM_CAT2(a, b)
#define PLUGINLIB_EXPORT_CLASS(D, B) static pluginshim::Export<D, B> PLUGINSHIM_CAT(pluginshim_export_, __LINE__)(#D);
