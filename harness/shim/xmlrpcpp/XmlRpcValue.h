// Stand-in for the value type of ROS' xmlrpcpp, with its documented semantics: no implicit conversion between types
// (a mismatch throws XmlRpcException), an invalid value takes the type it is first accessed as.
#pragma once
#include "XmlRpcException.h"
#include <map>
#include <ostream>
#include <memory>
#include <string>
#include <vector>
namespace XmlRpc
{
class XmlRpcValue
{
public:
  enum Type
  {
    TypeInvalid,
    TypeBoolean,
    TypeInt,
    TypeDouble,
    TypeString,
    TypeDateTime,
    TypeBase64,
    TypeArray,
    TypeStruct
  };
  typedef std::vector<XmlRpcValue> ValueArray;
  typedef std::map<std::string, XmlRpcValue> ValueStruct;
  typedef ValueStruct::iterator iterator;
  typedef ValueStruct::const_iterator const_iterator;

  XmlRpcValue() = default;
  XmlRpcValue(bool v) : _type(TypeBoolean), _b(v) {}
  XmlRpcValue(int v) : _type(TypeInt), _i(v) {}
  XmlRpcValue(double v) : _type(TypeDouble), _d(v) {}
  XmlRpcValue(const std::string& v) : _type(TypeString), _s(v) {}
  XmlRpcValue(const char* v) : _type(TypeString), _s(v) {}
  XmlRpcValue(const XmlRpcValue& o) { *this = o; }
  XmlRpcValue& operator=(const XmlRpcValue& o)
  {
    if (this != &o)
    {
      _type = o._type;
      _b = o._b;
      _i = o._i;
      _d = o._d;
      _s = o._s;
      _a.reset(o._a ? new ValueArray(*o._a) : nullptr);
      _m.reset(o._m ? new ValueStruct(*o._m) : nullptr);
    }
    return *this;
  }

  operator bool&() { return touch(TypeBoolean), _b; }
  operator int&() { return touch(TypeInt), _i; }
  operator double&() { return touch(TypeDouble), _d; }
  operator std::string&() { return touch(TypeString), _s; }
  operator bool const&() const { return assertType(TypeBoolean), _b; }
  operator int const&() const { return assertType(TypeInt), _i; }
  operator double const&() const { return assertType(TypeDouble), _d; }
  operator std::string const&() const { return assertType(TypeString), _s; }

  XmlRpcValue const& operator[](int i) const
  {
    assertType(TypeArray);
    if (i < 0 || i >= int(_a->size()))
      throw XmlRpcException("range error: array index too large");
    return (*_a)[std::size_t(i)];
  }
  XmlRpcValue& operator[](int i)
  {
    touch(TypeArray);
    if (int(_a->size()) <= i)
      _a->resize(std::size_t(i) + 1);
    return _a->at(std::size_t(i));
  }
  XmlRpcValue& operator[](std::string const& k)
  {
    touch(TypeStruct);
    return (*_m)[k];
  }
  XmlRpcValue& operator[](const char* k) { return (*this)[std::string(k)]; }
  iterator begin() { return touch(TypeStruct), _m->begin(); }
  iterator end() { return touch(TypeStruct), _m->end(); }

  bool valid() const { return _type != TypeInvalid; }
  Type const& getType() const { return _type; }
  int size() const
  {
    switch (_type)
    {
      case TypeString:
        return int(_s.size());
      case TypeArray:
        return int(_a->size());
      case TypeStruct:
        return int(_m->size());
      default:
        throw XmlRpcException("type error");
    }
  }
  void setSize(int n)
  {
    touch(TypeArray);
    _a->resize(std::size_t(n));
  }
  bool hasMember(const std::string& name) const { return _type == TypeStruct && _m->count(name) > 0; }
  // makes an empty value a struct
  void makeStruct() { touch(TypeStruct); }

protected:
  void assertType(Type t) const
  {
    if (_type != t)
      throw XmlRpcException("type error");
  }
  void touch(Type t)
  {
    if (_type == TypeInvalid)
    {
      _type = t;
      if (t == TypeArray)
        _a.reset(new ValueArray);
      if (t == TypeStruct)
        _m.reset(new ValueStruct);
    }
    else if (_type != t)
      throw XmlRpcException("type error");
  }
  Type _type = TypeInvalid;
  bool _b = false;
  int _i = 0;
  double _d = 0;
  std::string _s;
  std::unique_ptr<ValueArray> _a;
  std::unique_ptr<ValueStruct> _m;
};
inline std::ostream& operator<<(std::ostream& os, const XmlRpcValue& v) { return os << "XmlRpcValue of type " << int(v.getType()); }
}  // namespace XmlRpc
