// C30: intrinsics, poses and arbitrary structures from ROS parameters and YAML files.
#include "geom.h"
#include <cstdio>
#include <fstream>
#include <rct_ros_tools/exceptions.h>
#include <rct_ros_tools/loader_utils.h>
#include <rct_ros_tools/parameter_loaders.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace geom;
using XmlRpc::XmlRpcValue;

namespace
{
const std::vector<std::string> POSE = { "x", "y", "z", "qx", "qy", "qz", "qw" };
const std::vector<std::string> INTR = { "fx", "fy", "cx", "cy" };

double anyValue(Case& c)
{
  switch (c.i(0, 5))
  {
    case 0:
      return c.i(-3, 3);
    case 1:
      return (c.b() ? 1 : -1) * c.logr(1e-9, 1e9);
    default:
      return c.r(-1000, 1000);
  }
}
// the quaternion as numbers, its length and whether that makes a rotation
struct Values
{
  std::map<std::string, double> v;
  bool rotation = true;
};
Values anyPoseValues(Case& c)
{
  Values r;
  for (const char* k : { "x", "y", "z" })
    r.v[k] = anyValue(c);
  Eigen::Quaterniond q(anyRot(c));
  double f = c.b() ? 1 : -1;
  switch (c.i(0, 9))
  {
    case 0:
    case 1:
      f *= c.logr(1e-6, 1e6);
      c.label("scaled quaternion");
      break;
    case 2:
      f = 0;
      r.rotation = false;
      c.label("zero quaternion");
      break;
    case 3:
      // written with few digits
      for (int i = 0; i < 4; ++i)
        q.coeffs()[i] = std::round(q.coeffs()[i] * 1000) / 1000;
      c.label("rounded quaternion");
  }
  r.v["qx"] = f * q.x();
  r.v["qy"] = f * q.y();
  r.v["qz"] = f * q.z();
  r.v["qw"] = f * q.w();
  if (c.b(1, 20))
  {
    r.v[POSE[std::size_t(c.i(3, 6))]] = c.b() ? std::nan("") : INFINITY;
    r.rotation = false;
    c.label("quaternion not finite");
  }
  return r;
}
Isometry3d expected(const Values& v)
{
  double x = v.v.at("qx"), y = v.v.at("qy"), z = v.v.at("qz"), w = v.v.at("qw");
  const double n = std::sqrt(x * x + y * y + z * z + w * w);
  x /= n, y /= n, z /= n, w /= n;
  Matrix3d m;
  m << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y),  //
      2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x),   //
      2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y);
  return iso(m, Vector3d(v.v.at("x"), v.v.at("y"), v.v.at("z")));
}
XmlRpcValue junk(Case& c)
{
  switch (c.i(0, 4))
  {
    case 0:
      return XmlRpcValue(c.b());
    case 1:
      return XmlRpcValue(c.pick({ "", "1.5", "abc", "0" }));
    case 2:
    {
      XmlRpcValue a;
      a.setSize(c.i(0, 3));
      for (int i = 0; i < a.size(); ++i)
        a[i] = c.r(0, 1);
      return a;
    }
    case 3:
    {
      XmlRpcValue s;
      s.makeStruct();
      if (c.b())
        s["value"] = 1.0;
      return s;
    }
    default:
      return XmlRpcValue();
  }
}
std::string number(Case& c, double v)
{
  if (std::isnan(v))
    return ".nan";
  if (std::isinf(v))
    return v > 0 ? ".inf" : "-.inf";
  std::ostringstream o;
  o << std::setprecision(17);
  if (c.b(1, 4))
    o << std::scientific;
  o << v;
  return o.str();
}
struct File
{
  std::string path;
  File()
  {
    static int n = 0;
    path = pbt::scratch() + "/f" + std::to_string(getpid()) + "_" + std::to_string(n++) + ".yaml";
  }
  ~File()
  {
    unlink(path.c_str());
    rmdir(path.c_str());
  }
};
bool samePose(const Isometry3d& a, const Isometry3d& b)
{
  return (a.translation() - b.translation()).norm() <= 1e-14 * (1 + b.translation().norm()) && (a.linear() - b.linear()).cwiseAbs().maxCoeff() <= 1e-9;
}
bool identical(const Isometry3d& a, const Isometry3d& b) { return (a.matrix().array() == b.matrix().array()).all(); }

// reads with both interfaces; outcome: 1 read, 0 refused as documented; anything else fails
template <class Refusal, class Read, class ReadInto>
int outcome(Case& c, Read read, ReadInto into)
{
  int a = 1;
  try
  {
    read();
  }
  catch (const Refusal&)
  {
    a = 0;
  }
  catch (const std::exception& e)
  {
    c.fail(std::string("refused with another exception than documented: ") + e.what());
  }
  catch (const XmlRpc::XmlRpcException& e)
  {
    c.fail("refused with another exception than documented: XmlRpcException " + e.getMessage());
  }
  bool b = false;
  try
  {
    b = into();
  }
  catch (...)
  {
    c.fail("reading into an object threw instead of returning false");
  }
  c.check(a == (b ? 1 : 0), std::string("reading by value ") + (a ? "succeeded" : "failed") + ", reading into an object " + (b ? "succeeded" : "failed"));
  return a;
}
}  // namespace

PBT(C30, parameters, "pose or intrinsics from parameters with at least one field missing, malformed or added, or a quaternion without unit length", 6000, 150000)
{
  const bool pose = c.b();
  const std::vector<std::string>& fields = pose ? POSE : INTR;
  Values v;
  if (pose)
    v = anyPoseValues(c);
  else
    for (const auto& f : fields)
      v.v[f] = anyValue(c);
  ros::NodeHandle nh;
  const std::string key = c.pick({ "camera", "a/b", "" "x", "intr_1" });
  XmlRpcValue x;
  x.makeStruct();
  for (const auto& f : fields)
    x[f] = v.v[f];
  bool bad = pose && !v.rotation, unsure = false, unset = false;
  c.note("kind", pose ? "pose" : "intrinsics");
  for (const auto& f : fields)
    c.note(f, v.v[f]);
  bool touched = bad;
  switch (c.i(0, 7))
  {
    case 1:
    case 2:
    {
      const std::string f = fields[c.draw(fields.size())];
      XmlRpcValue y;
      y.makeStruct();
      for (auto& e : x)
        if (e.first != f)
          y[e.first] = e.second;
      x = y;
      if (c.b())
        x[c.pick({ "Q", "FX", "qW", "x ", "c" })] = 1.0;
      bad = touched = true;
      c.label("field missing");
      c.note("missing", f);
      break;
    }
    case 3:
    {
      const std::string f = fields[c.draw(fields.size())];
      const XmlRpcValue j = junk(c);
      // an unset value is not distinguished from zero by XmlRpc
      unset = unsure = !j.valid();
      x[f] = j;
      bad = !unsure || (bad && f[0] != 'q');
      touched = true;
      c.label("field malformed");
      c.note("malformed", f);
      break;
    }
    case 4:
    {
      // whole number: accepted with that value or refused
      const std::string f = fields[c.draw(fields.size())];
      const int n = c.i(-5, 5);
      x[f] = n;
      v.v[f] = n;
      unsure = touched = true;
      if (pose)
      {
        const Eigen::Vector4d q(v.v["qx"], v.v["qy"], v.v["qz"], v.v["qw"]);
        bad = !q.allFinite() || q.isZero(0);
      }
      c.label("whole number");
      break;
    }
    case 5:
      for (int i = c.i(1, 3); i > 0; --i)
        x["extra" + std::to_string(i)] = junk(c);
      touched = true;
      c.label("fields added");
      break;
    case 6:
      if (c.b(1, 2))
      {
        // not a structure at all
        x = junk(c);
        if (x.getType() == XmlRpcValue::TypeStruct)
          x = XmlRpcValue(1.0);
        bad = touched = true;
        c.label("no structure");
      }
  }
  bool set = true;
  if (c.b(1, 12))
  {
    set = false;
    bad = touched = true;
    c.label("not set");
  }
  if (set)
    nh.setParam(key, x);
  c.nontrivial(touched);

  int ok;
  std::string diff;
  if (pose)
  {
    const Isometry3d before = anyIso(c, 2.0);
    Isometry3d into = before, val = before;
    ok = outcome<ros::InvalidParameterException>(
        c, [&] { val = rct_ros_tools::loadPose(nh, key); }, [&] { return rct_ros_tools::loadPose(nh, key, into); });
    if (!ok)
      c.check(identical(into, before), "a refused pose changed the object");
    else if (!bad && !unset)
    {
      c.check(orthoErr(val.linear()) < 1e-9, "the pose read is not rigid");
      c.check(samePose(val, expected(v)), "pose read differs");
      c.check(samePose(into, expected(v)), "pose read into an object differs");
    }
  }
  else
  {
    CameraIntrinsics before;
    for (double& d : before.values)
      d = c.r(1, 1000);
    CameraIntrinsics into = before, val = before;
    ok = outcome<ros::InvalidParameterException>(
        c, [&] { val = rct_ros_tools::loadIntrinsics(nh, key); }, [&] { return rct_ros_tools::loadIntrinsics(nh, key, into); });
    if (!ok)
      c.check(into.values == before.values, "refused intrinsics changed the object");
    else if (!bad && !unset)
      for (const CameraIntrinsics& g : { val, into })
        c.check(g.fx() == v.v["fx"] && g.fy() == v.v["fy"] && g.cx() == v.v["cx"] && g.cy() == v.v["cy"], "intrinsics read differ");
  }
  if (bad)
    c.check(!ok, std::string(pose ? "pose" : "intrinsics") + " accepted although incomplete, malformed or without rotation");
  else if (!unsure)
    c.check(ok, std::string("complete ") + (pose ? "pose" : "intrinsics") + " refused");
}

PBT(C30, files, "file with at least one field missing, malformed or added, a quaternion without unit length, no YAML or no file", 4000, 100000)
{
  const bool pose = c.b();
  const std::vector<std::string>& fields = pose ? POSE : INTR;
  Values v;
  if (pose)
    v = anyPoseValues(c);
  else
    for (const auto& f : fields)
      v.v[f] = anyValue(c);
  std::vector<std::pair<std::string, std::string>> e;
  for (const auto& f : fields)
    e.push_back({ f, number(c, v.v[f]) });
  const auto perm = c.perm(int(e.size()));
  bool bad = pose && !v.rotation, unsure = false, touched = bad;
  const std::size_t at = c.draw(e.size());
  const int how = c.i(0, 9);
  switch (how)
  {
    case 1:
      e[at].second = c.pick({ "abc", "1.5x", "[1, 2]", "{a: 1}", "", "'1,5'" });
      bad = true;
      break;
    case 2:
      e[at].first = c.pick({ "Fx", "w", "q", "f x" });
      bad = true;
      break;
    case 3:
      e.erase(e.begin() + long(at));
      bad = true;
      break;
    case 4:
      e.push_back({ "extra", "1" });
      // intrinsics have exactly four fields, poses may have others
      (pose ? unsure : bad) = true;
  }
  touched = touched || (how > 0 && how < 9);
  std::string t;
  const bool flow = c.b(1, 4);
  if (flow)
    t = "{";
  std::size_t k = 0;
  for (std::size_t i = 0; i < perm.size(); ++i)
    if (std::size_t(perm[i]) < e.size())
    {
      const auto& f = e[std::size_t(perm[i])];
      t += (flow && k++ ? ", " : "") + f.first + ": " + f.second + (flow ? "" : "\n");
    }
  if (e.size() > perm.size())
    t += (flow ? ", " : "") + e.back().first + ": " + e.back().second + (flow ? "" : "\n");
  if (flow)
    t += "}\n";
  File f;
  switch (how)
  {
    case 5:
      t = c.pick({ "", "~\n", "[1, 2, 3, 4]\n", "5\n", "text\n", "- fx\n- fy\n" });
      bad = true;
      break;
    case 6:
      t += c.pick({ "\t\"", "{", "]", ": : :\n  - }", "&a *b", "\"" });
      // whether that still is YAML does not matter if nothing else is wrong: only the documented ways to refuse it
      unsure = true;
      break;
    case 7:
      bad = true;
      break;
    case 8:
      bad = true;
  }
  c.note("kind", pose ? "pose" : "intrinsics");
  c.note("text", t);
  static const char* names[] = { "complete", "field malformed", "field renamed", "field missing", "field added", "other document", "broken yaml", "no file", "directory", "complete" };
  c.label(names[how]);
  c.nontrivial(touched);
  if (how == 8)
    mkdir(f.path.c_str(), 0755);
  else if (how != 7)
    std::ofstream(f.path) << t;
  int ok;
  if (pose)
  {
    const Isometry3d before = anyIso(c, 2.0);
    Isometry3d into = before, val = before;
    ok = outcome<rct_ros_tools::BadFileException>(
        c, [&] { val = rct_ros_tools::loadPose(f.path); }, [&] { return rct_ros_tools::loadPose(f.path, into); });
    if (!ok)
      c.check(identical(into, before), "a refused pose changed the object");
    else if (!bad && how != 6)
    {
      c.check(samePose(val, expected(v)) && samePose(into, expected(v)), "pose read differs");
      c.check(orthoErr(val.linear()) < 1e-9, "the pose read is not rigid");
    }
  }
  else
  {
    CameraIntrinsics before;
    for (double& d : before.values)
      d = c.r(1, 1000);
    CameraIntrinsics into = before, val = before;
    ok = outcome<rct_ros_tools::BadFileException>(
        c, [&] { val = rct_ros_tools::loadIntrinsics(f.path); }, [&] { return rct_ros_tools::loadIntrinsics(f.path, into); });
    if (!ok)
      c.check(into.values == before.values, "refused intrinsics changed the object");
    else if (!bad && how != 6)
      for (const CameraIntrinsics& g : { val, into })
        c.check(g.fx() == v.v["fx"] && g.fy() == v.v["fy"] && g.cx() == v.v["cx"] && g.cy() == v.v["cy"], "intrinsics read differ");
  }
  if (bad)
    c.check(!ok, std::string(pose ? "pose" : "intrinsics") + " accepted from a file that is incomplete or malformed");
  else if (!unsure)
    c.check(ok, std::string("complete ") + (pose ? "pose" : "intrinsics") + " refused");
}

// ---------------------------------------------------------------------------------------------- structures to YAML
namespace
{
std::string anyText(Case& c)
{
  static const std::string alphabet = "abcXYZ019_-/.: #\"'\n\t{}[],&*!|>%@~=\\ \xc3\xa4";
  std::string s;
  for (int n = c.i(0, 12); n > 0; --n)
    s += alphabet[c.draw(alphabet.size())];
  if (c.b(1, 6))
    s = c.pick({ "true", "null", "~", "1.0", "0x10", "no" });
  return s;
}
XmlRpcValue leaf(Case& c, int type)
{
  switch (type)
  {
    case 0:
      return XmlRpcValue(c.b());
    case 1:
      return XmlRpcValue(c.b(1, 8) ? (c.b() ? INT_MAX : INT_MIN) : c.i(-1000, 1000));
    case 2:
      return XmlRpcValue(c.b(1, 8) ? (c.b() ? 1 : -1) * c.logr(1e-300, 1e300) : c.b(1, 4) ? double(c.i(-9, 9)) : c.r(-1000, 1000));
    default:
      return XmlRpcValue(anyText(c));
  }
}
// what cannot be converted: bad |= 1
XmlRpcValue structure(Case& c, int depth, bool& bad, int& leaves)
{
  XmlRpcValue x;
  x.makeStruct();
  for (int n = c.i(depth == 0 ? 1 : 0, 5); n > 0; --n)
  {
    std::string k = c.b(1, 8) ? anyText(c) : std::string(1, char('a' + c.i(0, 25))) + std::to_string(c.i(0, 9));
    if (k.empty())
      k = "e";
    switch (c.i(0, 7))
    {
      case 0:
        if (depth < 4)
          x[k] = structure(c, depth + 1, bad, leaves);
        break;
      case 1:
      case 2:
      {
        XmlRpcValue a;
        const int type = c.i(0, 3), len = c.i(0, 4);
        a.setSize(len);
        for (int i = 0; i < len; ++i)
          a[i] = leaf(c, type), ++leaves;
        if (len == 0)
          c.label("empty array");
        x[k] = a;
        break;
      }
      case 3:
        if (c.b(1, 8))
        {
          XmlRpcValue a;
          switch (c.i(0, 3))
          {
            case 0:  // of different types
              a.setSize(c.i(2, 4));
              for (int i = 0; i < a.size(); ++i)
                a[i] = leaf(c, i == 0 ? 3 : c.i(0, 2));
              c.label("mixed array");
              break;
            case 1:  // of arrays
              a.setSize(1);
              a[0].setSize(2);
              a[0][0] = 1.0;
              a[0][1] = 1.0;
              c.label("nested array");
              break;
            case 2:  // of structures
              a.setSize(1);
              a[0].makeStruct();
              c.label("array of structures");
              break;
            default:  // nothing at all
              c.label("unset value");
          }
          bad = true;
          x[k] = a;
          if (!a.valid())
            x[k] = XmlRpcValue();
          break;
        }
        // fallthrough
      default:
        x[k] = leaf(c, c.i(0, 3));
        ++leaves;
    }
  }
  return x;
}
void sameLeaf(Case& c, const XmlRpcValue& x, const YAML::Node& n, const std::string& at)
{
  c.check(n.IsDefined() && n.IsScalar(), at + " is not a scalar");
  try
  {
    switch (x.getType())
    {
      case XmlRpcValue::TypeBoolean:
        c.check(n.as<bool>() == static_cast<const bool&>(x), at + ": truth value differs");
        break;
      case XmlRpcValue::TypeInt:
        c.check(n.as<int>() == static_cast<const int&>(x), at + ": whole number differs");
        break;
      case XmlRpcValue::TypeDouble:
        c.check(n.as<double>() == static_cast<const double&>(x), at + ": number differs");
        break;
      default:
        c.check(n.as<std::string>() == static_cast<const std::string&>(x), at + ": text differs");
    }
  }
  catch (const YAML::Exception& e)
  {
    c.fail(at + ": " + e.what());
  }
}
void sameTree(Case& c, XmlRpcValue x, const YAML::Node& n, const std::string& at)
{
  if (x.size() == 0)
  {
    c.check(n.size() == 0 && !n.IsScalar(), at + " should be empty");
    return;
  }
  c.check(n.IsMap(), at + " is not a map");
  c.check(int(n.size()) == x.size(), at + " has " + std::to_string(n.size()) + " fields instead of " + std::to_string(x.size()));
  for (auto& e : x)
  {
    const YAML::Node f = n[e.first];
    const std::string p = at + "/" + e.first;
    switch (e.second.getType())
    {
      case XmlRpcValue::TypeStruct:
        sameTree(c, e.second, f, p);
        break;
      case XmlRpcValue::TypeArray:
        c.check(f.IsDefined() && f.IsSequence(), p + " is not a sequence");
        c.check(int(f.size()) == e.second.size(), p + " has another length");
        for (int i = 0; i < e.second.size(); ++i)
          sameLeaf(c, e.second[i], f[std::size_t(i)], p + "[" + std::to_string(i) + "]");
        break;
      default:
        sameLeaf(c, e.second, f, p);
    }
  }
}
}  // namespace

PBT(C30, structures, "structure with at least three values, or one that cannot be converted", 6000, 150000)
{
  bool bad = false;
  int leaves = 0;
  XmlRpcValue x = structure(c, 0, bad, leaves);
  if (c.b(1, 25))
  {
    x = c.b() ? leaf(c, c.i(0, 3)) : XmlRpcValue();
    bad = true;
    c.label("no structure");
  }
  c.note("values", leaves);
  c.nontrivial(bad || leaves >= 3);
  // a value that was overwritten by another with the same name may have been the one that cannot be converted
  std::function<bool(XmlRpcValue)> convertible = [&](XmlRpcValue v) {
    if (v.getType() != XmlRpcValue::TypeStruct)
      return false;
    for (auto& e : v)
      switch (e.second.getType())
      {
        case XmlRpcValue::TypeStruct:
          if (!convertible(e.second))
            return false;
          break;
        case XmlRpcValue::TypeArray:
          for (int i = 0; i < e.second.size(); ++i)
          {
            const auto t = e.second[i].getType();
            if (t != e.second[0].getType() || t == XmlRpcValue::TypeArray || t == XmlRpcValue::TypeStruct || t == XmlRpcValue::TypeInvalid)
              return false;
          }
          break;
        case XmlRpcValue::TypeInvalid:
          return false;
        default:
          break;
      }
    return true;
  };
  bad = !convertible(x);
  c.label(bad ? "not convertible" : "convertible");
  YAML::Node n;
  bool ok = true;
  std::string what;
  try
  {
    n = rct_ros_tools::toYAML(x);
  }
  catch (const std::exception& e)
  {
    ok = false;
    what = e.what();
  }
  catch (const XmlRpc::XmlRpcException& e)
  {
    c.fail("escaped with an XmlRpcException: " + e.getMessage());
  }
  if (bad)
    c.check(!ok, "a structure that cannot be converted was accepted");
  else
  {
    c.check(ok, "a structure was refused: " + what);
    sameTree(c, x, n, "");
  }
}
