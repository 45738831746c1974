// C18 (round trips) and C19 (malformed data), with an own document model, emitter and reference decoder.
#include "geom.h"
#include <rct_optimizations/serialization/problems.h>
#include <fstream>
#include <memory>
#include <optional>
#include <regex>
#include <unistd.h>
using namespace geom;
using namespace rct_optimizations;

namespace
{
// ---------------------------------------------------------------------------------------------- documents
struct Y
{
  enum Kind
  {
    Scalar,
    Map,
    Seq,
    Null
  } kind = Null;
  std::string s;
  bool quoted = false;
  std::vector<std::pair<std::string, Y>> m;
  std::vector<Y> q;
};
Y scalar(const std::string& s, bool quoted = false)
{
  Y y;
  y.kind = Y::Scalar;
  y.s = s;
  y.quoted = quoted;
  return y;
}
std::string quote(const std::string& s)
{
  std::string o = "\"";
  for (char ch : s)
  {
    if (ch == '"' || ch == '\\')
      o += '\\';
    if (ch == '\n')
      o += "\\n";
    else if (ch == '\t')
      o += "\\t";
    else
      o += ch;
  }
  return o + "\"";
}
void emit(Case& c, const Y& y, std::string& out, int indent, bool flow)
{
  const std::string pad(std::size_t(indent), ' ');
  switch (y.kind)
  {
    case Y::Null:
      out += flow || c.b() ? "~" : "";
      break;
    case Y::Scalar:
      out += y.quoted ? quote(y.s) : y.s;
      break;
    case Y::Map:
      if (flow || y.m.empty())
      {
        out += "{";
        for (std::size_t i = 0; i < y.m.size(); ++i)
        {
          out += (i ? ", " : "") + y.m[i].first + ": ";
          emit(c, y.m[i].second, out, 0, true);
        }
        out += "}";
      }
      else
        for (const auto& e : y.m)
        {
          out += "\n" + pad + e.first + ": ";
          emit(c, e.second, out, indent + 2, c.b(1, 4));
        }
      break;
    case Y::Seq:
      if (flow || y.q.empty())
      {
        out += "[";
        for (std::size_t i = 0; i < y.q.size(); ++i)
        {
          out += i ? ", " : "";
          emit(c, y.q[i], out, 0, true);
        }
        out += "]";
      }
      else
        for (const auto& e : y.q)
        {
          out += "\n" + pad + "- ";
          emit(c, e, out, indent + 2, c.b(1, 4));
        }
  }
}
std::string text(Case& c, const Y& y)
{
  std::string s;
  if (c.b(1, 3))
    s += "# calibration data\n";
  if (c.b(1, 4))
    s += "---\n";
  emit(c, y, s, 0, c.b(1, 4));
  return s + "\n";
}

// ---------------------------------------------------------------------------------------------- schemas and values
struct Leaf
{
  double v = 0;
  std::string s;
  bool str = false;
  double tol = 0;
};
using Leaves = std::vector<Leaf>;
Leaf num(double v, double tol = 0) { return Leaf{ v, "", false, tol }; }
Leaf strl(const std::string& s) { return Leaf{ 0, s, true, 0 }; }
struct Schema
{
  enum Kind
  {
    Num,
    FloatNum,
    Bool,
    Type,
    Str,
    Rec,
    Seq
  } kind = Num;
  bool strict = false;  // the number of fields is part of the format
  std::vector<std::pair<std::string, std::shared_ptr<Schema>>> fields;
  std::shared_ptr<Schema> elem;
  std::function<Leaves(const std::vector<Leaves>&)> combine;
  std::function<int(const std::vector<Leaves>&)> judge;  // 0 valid, 1 malformed, 2 unspecified
  std::function<Y(Case&)> gen;
};
using S = std::shared_ptr<Schema>;
S leafSchema(Schema::Kind k)
{
  S s = std::make_shared<Schema>();
  s->kind = k;
  return s;
}
S rec(bool strict, std::vector<std::pair<std::string, S>> f)
{
  S s = std::make_shared<Schema>();
  s->kind = Schema::Rec;
  s->strict = strict;
  s->fields = std::move(f);
  return s;
}
S seq(S e)
{
  S s = std::make_shared<Schema>();
  s->kind = Schema::Seq;
  s->elem = e;
  return s;
}
Leaves matLeaves(const Matrix3d& r, const Vector3d& t, double tol)
{
  Leaves l;
  for (int i = 0; i < 9; ++i)
    l.push_back(num(r(i), tol));
  for (int i = 0; i < 3; ++i)
    l.push_back(num(t[i]));
  return l;
}
Matrix3d quatMat(double w, double x, double y, double z)
{
  Matrix3d m;
  m << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y),  //
      2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x),   //
      2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y);
  return m;
}
Matrix3d rpyMat(double r, double p, double y)
{
  return expSO3(Vector3d(0, 0, y)) * expSO3(Vector3d(0, p, 0)) * expSO3(Vector3d(r, 0, 0));
}
std::string fmt(Case& c, double v)
{
  char b[64];
  switch (c.i(0, 3))
  {
    case 0:
      std::snprintf(b, sizeof b, "%.17g", v);
      break;
    case 1:
      std::snprintf(b, sizeof b, "%.17e", v);
      break;
    case 2:
      std::snprintf(b, sizeof b, "%.20g", v);
      break;
    default:
      std::snprintf(b, sizeof b, "%+.16E", v);
  }
  return b;
}
double anyNum(Case& c)
{
  switch (c.i(0, 7))
  {
    case 0:
      return c.i(-5, 5);
    case 1:
      return c.r(-1, 1);
    case 2:
      return c.r(-1e4, 1e4);
    case 3:
      return c.logr(1e-300, 1e300) * (c.b() ? 1 : -1);
    case 4:
      return c.logr(1e-12, 1e12) * (c.b() ? 1 : -1);
    case 5:
      return c.pick({ 0.0, -0.0, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, 0.1, 1.0 / 3.0, 1e22 });
    case 6:
    {
      // any finite bit pattern
      const uint64_t bits = (c.draw(1ull << 32) << 32) | c.draw(1ull << 32);
      double d;
      std::memcpy(&d, &bits, 8);
      return std::isfinite(d) ? d : 1.5;
    }
    default:
      return c.r(-10, 10);
  }
}
float anyFloat(Case& c) { return c.b(1, 8) ? c.pick({ 0.f, 1e-30f, 3.4e38f, 0.1f }) : float(c.b() ? c.r(-10, 10) : c.logr(1e-20, 1e20)); }
std::string anyName(Case& c)
{
  if (c.b())
    return "joint_" + std::to_string(c.i(0, 9));
  static const std::string parts[] = { "a", " ", "é", ":", "#", "true", "7", "null", "-", "{", "\"", "\\", "\n", ",", "]" };
  std::string s;
  const int n = c.i(0, 6);
  for (int i = 0; i < n; ++i)
    s += parts[c.i(0, 14)];
  return s;
}

// reference decoder.  0 valid, 1 invalid, 2 not specified
struct Decoded
{
  int state = 0;
  std::string why;
  Leaves l;
};
const std::regex& numberRe()
{
  static const std::regex re("[+-]?([0-9]+\\.?[0-9]*|\\.[0-9]+)([eE][+-]?[0-9]+)?");
  return re;
}
Decoded decode(const S& s, const Y& y, bool trustYaml, const std::string& at = "")
{
  Decoded d;
  auto bad = [&](const std::string& why, int st = 1) {
    d.state = st;
    d.why = at + ": " + why;
    return d;
  };
  switch (s->kind)
  {
    case Schema::Num:
    case Schema::FloatNum:
      if (y.kind != Y::Scalar)
        return bad("not a number");
      if (trustYaml)
      {
        const YAML::Node n(y.s);
        double v;
        float f;
        if (s->kind == Schema::Num ? !YAML::convert<double>::decode(n, v) : !YAML::convert<float>::decode(n, f))
          return bad("not a number");
        d.l.push_back(num(s->kind == Schema::Num ? v : double(f)));
        return d;
      }
      if (!std::regex_match(y.s, numberRe()))
        return bad("not a number");
      d.l.push_back(num(s->kind == Schema::Num ? std::strtod(y.s.c_str(), nullptr) : double(std::strtof(y.s.c_str(), nullptr))));
      return d;
    case Schema::Bool:
    {
      static const std::set<std::string> yes = { "true", "True", "TRUE", "yes", "on", "y" }, no = { "false", "False", "FALSE", "no", "off", "n" };
      bool v;
      if (y.kind != Y::Scalar)
        return bad("not a truth value");
      if (trustYaml)
      {
        if (!YAML::convert<bool>::decode(YAML::Node(y.s), v))
          return bad("not a truth value");
      }
      else if (yes.count(y.s))
        v = true;
      else if (no.count(y.s))
        v = false;
      else
        return bad("not a truth value");
      d.l.push_back(num(v));
      return d;
    }
    case Schema::Type:
    {
      if (y.kind != Y::Scalar)
        return bad("not a joint type");
      unsigned v;
      if (trustYaml)
      {
        if (!YAML::convert<unsigned>::decode(YAML::Node(y.s), v) || v > 1)
          return bad("not a joint type");
      }
      else if (y.s == "0" || y.s == "1")
        v = unsigned(y.s[0] - '0');
      else
        return bad("not a joint type");
      d.l.push_back(num(v));
      return d;
    }
    case Schema::Str:
      if (y.kind == Y::Null)
        return bad("null for text", 2);
      if (y.kind != Y::Scalar)
        return bad("not text");
      d.l.push_back(strl(y.s));
      return d;
    case Schema::Seq:
      if (y.kind != Y::Seq)
        return bad("not a sequence");
      d.l.push_back(num(double(y.q.size())));
      for (std::size_t i = 0; i < y.q.size(); ++i)
      {
        Decoded e = decode(s->elem, y.q[i], trustYaml, at + "[" + std::to_string(i) + "]");
        if (e.state == 1)
          return e;
        if (e.state == 2)
          d.state = 2, d.why = e.why;
        d.l.insert(d.l.end(), e.l.begin(), e.l.end());
      }
      return d;
    case Schema::Rec:
    {
      if (y.kind != Y::Map)
        return bad("not a record");
      if (s->strict && y.m.size() != s->fields.size())
        return bad("wrong number of fields");
      std::vector<Leaves> parts;
      if (y.m.size() != s->fields.size())
        d.state = 2, d.why = at + ": extra fields";
      for (const auto& f : s->fields)
      {
        const Y* v = nullptr;
        for (const auto& e : y.m)
          if (e.first == f.first)
          {
            if (v)
              d.state = 2, d.why = at + ": duplicate field";
            else
              v = &e.second;
          }
        if (!v)
          return bad("field '" + f.first + "' missing");
        Decoded e = decode(f.second, *v, trustYaml, at + "/" + f.first);
        if (e.state == 1)
          return e;
        if (e.state == 2)
          d.state = 2, d.why = e.why;
        parts.push_back(e.l);
      }
      if (s->judge)
      {
        const int st = s->judge(parts);
        if (st == 1)
          return bad("no rotation");
        d.state = std::max(d.state, st);
      }
      if (s->combine && d.state == 0)
        d.l = s->combine(parts);
      else
        for (const Leaves& p : parts)
          d.l.insert(d.l.end(), p.begin(), p.end());
      return d;
    }
  }
  return d;
}
// random valid document of a schema
Y genDoc(Case& c, const S& s)
{
  if (s->gen)
    return s->gen(c);
  Y y;
  switch (s->kind)
  {
    case Schema::Num:
      return scalar(fmt(c, anyNum(c)));
    case Schema::FloatNum:
      return scalar(fmt(c, anyFloat(c)));
    case Schema::Bool:
      return scalar(c.pick({ "true", "false" }));
    case Schema::Type:
      return scalar(c.pick({ "0", "1" }));
    case Schema::Str:
      return scalar(anyName(c), true);
    case Schema::Seq:
    {
      y.kind = Y::Seq;
      const int n = c.b(1, 6) ? 0 : c.i(0, 4);
      for (int i = 0; i < n; ++i)
        y.q.push_back(genDoc(c, s->elem));
      return y;
    }
    case Schema::Rec:
      y.kind = Y::Map;
      for (const auto& f : s->fields)
        y.m.push_back({ f.first, genDoc(c, f.second) });
      return y;
  }
  return y;
}
const Y& at(const Y& y, const std::string& k)
{
  for (const auto& e : y.m)
    if (e.first == k)
      return e.second;
  throw std::logic_error("no field " + k);
}
double val(const Y& y) { return std::strtod(y.s.c_str(), nullptr); }

// ---------------------------------------------------------------------------------------------- types
template <class T>
struct Codec;
template <class F, int N>
struct Codec<Eigen::Matrix<F, N, 1>>
{
  using T = Eigen::Matrix<F, N, 1>;
  static S schema()
  {
    static const char* k[] = { "x", "y", "z" };
    std::vector<std::pair<std::string, S>> f;
    for (int i = 0; i < N; ++i)
      f.push_back({ k[i], leafSchema(sizeof(F) == 4 ? Schema::FloatNum : Schema::Num) });
    return rec(false, f);
  }
  static T make(const Y& y)
  {
    static const char* k[] = { "x", "y", "z" };
    T v;
    for (int i = 0; i < N; ++i)
      v[i] = F(sizeof(F) == 4 ? double(std::strtof(at(y, k[i]).s.c_str(), nullptr)) : val(at(y, k[i])));
    return v;
  }
  static void flat(const T& v, Leaves& l)
  {
    for (int i = 0; i < N; ++i)
      l.push_back(num(double(v[i])));
  }
};
template <class F>
struct Codec<Eigen::Transform<F, 3, Eigen::Isometry>>
{
  using T = Eigen::Transform<F, 3, Eigen::Isometry>;
  static constexpr double tol = sizeof(F) == 4 ? 1e-6 : 1e-14;
  static S schema()
  {
    const Schema::Kind k = sizeof(F) == 4 ? Schema::FloatNum : Schema::Num;
    S s = rec(false, { { "x", leafSchema(k) }, { "y", leafSchema(k) }, { "z", leafSchema(k) }, { "qw", leafSchema(k) }, { "qx", leafSchema(k) }, { "qy", leafSchema(k) }, { "qz", leafSchema(k) } });
    // any quaternion with a length is a rotation; lengths near the ends of the number range are not judged
    s->judge = [](const std::vector<Leaves>& p) {
      double n = 0;
      for (int i = 3; i < 7; ++i)
      {
        if (!std::isfinite(p[i][0].v))
          return 1;
        n = std::max(n, std::abs(p[i][0].v));
      }
      const double small = sizeof(F) == 4 ? 1e-30 : 1e-290, large = 1 / small;
      return n == 0 ? 1 : n < small || n > large ? 2 : 0;
    };
    s->combine = [](const std::vector<Leaves>& p) {
      Eigen::Vector4d q(p[3][0].v, p[4][0].v, p[5][0].v, p[6][0].v);
      q /= q.cwiseAbs().maxCoeff();
      q.normalize();
      return matLeaves(quatMat(q[0], q[1], q[2], q[3]), Vector3d(p[0][0].v, p[1][0].v, p[2][0].v), tol);
    };
    s->gen = [k](Case& c) {
      const Eigen::Quaterniond q(anyRot(c));
      const double sg = (c.b() ? 1 : -1) * (c.b(1, 5) ? c.logr(1e-3, 1e3) : 1);
      Y y;
      y.kind = Y::Map;
      for (const char* a : { "x", "y", "z" })
        y.m.push_back({ a, genDoc(c, leafSchema(k)) });
      y.m.push_back({ "qw", scalar(fmt(c, sg * q.w())) });
      y.m.push_back({ "qx", scalar(fmt(c, sg * q.x())) });
      y.m.push_back({ "qy", scalar(fmt(c, sg * q.y())) });
      y.m.push_back({ "qz", scalar(fmt(c, sg * q.z())) });
      return y;
    };
    return s;
  }
  static T make(const Y& y)
  {
    Eigen::Vector4d q(val(at(y, "qw")), val(at(y, "qx")), val(at(y, "qy")), val(at(y, "qz")));
    q.normalize();
    T t = T::Identity();
    t.linear() = quatMat(q[0], q[1], q[2], q[3]).template cast<F>();
    t.translation() = Codec<Eigen::Matrix<F, 3, 1>>::make(y);
    return t;
  }
  static void flat(const T& v, Leaves& l)
  {
    const Leaves m = matLeaves(v.linear().template cast<double>(), v.translation().template cast<double>(), tol);
    l.insert(l.end(), m.begin(), m.end());
    const Eigen::Matrix<F, 1, 4> last(0, 0, 0, 1);
    if (v.matrix().row(3) != last)
      throw pbt::Fail{ "last row of a transform is not 0 0 0 1" };
  }
};
template <>
struct Codec<CameraIntrinsics>
{
  using T = CameraIntrinsics;
  static S schema()
  {
    return rec(true, { { "fx", leafSchema(Schema::Num) }, { "fy", leafSchema(Schema::Num) }, { "cx", leafSchema(Schema::Num) }, { "cy", leafSchema(Schema::Num) } });
  }
  static T make(const Y& y)
  {
    T k;
    k.values = { val(at(y, "fx")), val(at(y, "fy")), val(at(y, "cx")), val(at(y, "cy")) };
    return k;
  }
  static void flat(const T& v, Leaves& l)
  {
    for (double d : v.values)
      l.push_back(num(d));
  }
};
template <class E>
struct Codec<std::vector<E>>
{
  using T = std::vector<E>;
  static S schema() { return seq(Codec<E>::schema()); }
  static T make(const Y& y)
  {
    T v;
    for (const Y& e : y.q)
      v.push_back(Codec<E>::make(e));
    return v;
  }
  static void flat(const T& v, Leaves& l)
  {
    l.push_back(num(double(v.size())));
    for (const E& e : v)
      Codec<E>::flat(e, l);
  }
};
template <Eigen::Index N>
struct Codec<Correspondence<N, 3>>
{
  using T = Correspondence<N, 3>;
  using I = Eigen::Matrix<double, N, 1>;
  static S schema() { return rec(true, { { "in_image", Codec<I>::schema() }, { "in_target", Codec<Vector3d>::schema() } }); }
  static T make(const Y& y)
  {
    T t;
    t.in_image = Codec<I>::make(at(y, "in_image"));
    t.in_target = Codec<Vector3d>::make(at(y, "in_target"));
    return t;
  }
  static void flat(const T& v, Leaves& l)
  {
    Codec<I>::flat(v.in_image, l);
    Codec<Vector3d>::flat(v.in_target, l);
  }
};
template <Eigen::Index N>
struct Codec<Observation<N, 3>>
{
  using T = Observation<N, 3>;
  using CS = std::vector<Correspondence<N, 3>>;
  static S schema()
  {
    return rec(true, { { "correspondences", Codec<CS>::schema() }, { "to_camera_mount", Codec<Isometry3d>::schema() }, { "to_target_mount", Codec<Isometry3d>::schema() } });
  }
  static T make(const Y& y)
  {
    T t;
    t.correspondence_set = Codec<CS>::make(at(y, "correspondences"));
    t.to_camera_mount = Codec<Isometry3d>::make(at(y, "to_camera_mount"));
    t.to_target_mount = Codec<Isometry3d>::make(at(y, "to_target_mount"));
    return t;
  }
  static void flat(const T& v, Leaves& l)
  {
    Codec<CS>::flat(v.correspondence_set, l);
    Codec<Isometry3d>::flat(v.to_camera_mount, l);
    Codec<Isometry3d>::flat(v.to_target_mount, l);
  }
};
template <class P, class O>
struct ProblemCodec
{
  using T = P;
  static constexpr bool intr = std::is_same<P, ExtrinsicHandEyeProblem2D3D>::value;
  static S schema()
  {
    S s = rec(true, { { "camera_mount_to_camera_guess", Codec<Isometry3d>::schema() }, { "target_mount_to_target_guess", Codec<Isometry3d>::schema() }, { "observations", Codec<std::vector<O>>::schema() } });
    if (intr)
      s->fields.push_back({ "intr", Codec<CameraIntrinsics>::schema() });
    return s;
  }
  static T make(const Y& y)
  {
    T t;
    t.camera_mount_to_camera_guess = Codec<Isometry3d>::make(at(y, "camera_mount_to_camera_guess"));
    t.target_mount_to_target_guess = Codec<Isometry3d>::make(at(y, "target_mount_to_target_guess"));
    t.observations = Codec<std::vector<O>>::make(at(y, "observations"));
    if constexpr (intr)
      t.intr = Codec<CameraIntrinsics>::make(at(y, "intr"));
    return t;
  }
  static void flat(const T& v, Leaves& l)
  {
    Codec<Isometry3d>::flat(v.camera_mount_to_camera_guess, l);
    Codec<Isometry3d>::flat(v.target_mount_to_target_guess, l);
    Codec<std::vector<O>>::flat(v.observations, l);
    if constexpr (intr)
      Codec<CameraIntrinsics>::flat(v.intr, l);
  }
};
template <>
struct Codec<ExtrinsicHandEyeProblem2D3D> : ProblemCodec<ExtrinsicHandEyeProblem2D3D, Observation2D3D>
{
};
template <>
struct Codec<ExtrinsicHandEyeProblem3D3D> : ProblemCodec<ExtrinsicHandEyeProblem3D3D, Observation3D3D>
{
};
template <>
struct Codec<ExtrinsicHandEyeResult>
{
  using T = ExtrinsicHandEyeResult;
  static constexpr double tol = 1e-13;
  static S schema()
  {
    S rpy = Codec<Vector3d>::schema();
    rpy->gen = [](Case& c) {
      Y y;
      y.kind = Y::Map;
      const bool lock = c.b(1, 5);
      y.m.push_back({ "x", scalar(fmt(c, c.r(-M_PI, M_PI))) });
      y.m.push_back({ "y", scalar(fmt(c, lock ? (c.b() ? 1 : -1) * (M_PI / 2 - (c.b() ? 0 : c.logr(1e-12, 1e-3))) : c.r(-M_PI / 2, M_PI / 2))) });
      y.m.push_back({ "z", scalar(fmt(c, c.r(-M_PI, M_PI))) });
      return y;
    };
    S s = rec(true, { { "converged", leafSchema(Schema::Bool) }, { "initial_cost_per_obs", leafSchema(Schema::Num) }, { "final_cost_per_obs", leafSchema(Schema::Num) }, { "target_mount_to_target_pos", Codec<Vector3d>::schema() }, { "camera_mount_to_camera_pos", Codec<Vector3d>::schema() }, { "target_mount_to_target_rpy", rpy }, { "camera_mount_to_camera_rpy", rpy } });
    s->combine = [](const std::vector<Leaves>& p) {
      Leaves l = { p[0][0], p[1][0], p[2][0] };
      for (int i = 0; i < 2; ++i)
      {
        const Leaves &t = p[3 + i], &r = p[5 + i];
        const Leaves m = matLeaves(rpyMat(r[0].v, r[1].v, r[2].v), Vector3d(t[0].v, t[1].v, t[2].v), tol * (1 + std::abs(r[0].v) + std::abs(r[1].v) + std::abs(r[2].v)));
        l.insert(l.end(), m.begin(), m.end());
      }
      return l;
    };
    return s;
  }
  static T make(const Y& y)
  {
    T t;
    t.converged = at(y, "converged").s == "true";
    t.initial_cost_per_obs = val(at(y, "initial_cost_per_obs"));
    t.final_cost_per_obs = val(at(y, "final_cost_per_obs"));
    for (int i = 0; i < 2; ++i)
    {
      const std::string n = i ? "camera_mount_to_camera" : "target_mount_to_target";
      const Vector3d r = Codec<Vector3d>::make(at(y, n + "_rpy"));
      (i ? t.camera_mount_to_camera : t.target_mount_to_target) = iso(rpyMat(r[0], r[1], r[2]), Codec<Vector3d>::make(at(y, n + "_pos")));
    }
    return t;
  }
  static void flat(const T& v, Leaves& l)
  {
    l.push_back(num(v.converged));
    l.push_back(num(v.initial_cost_per_obs));
    l.push_back(num(v.final_cost_per_obs));
    for (const Isometry3d* p : { &v.target_mount_to_target, &v.camera_mount_to_camera })
    {
      const Leaves m = matLeaves(p->linear(), p->translation(), tol);
      l.insert(l.end(), m.begin(), m.end());
    }
  }
};
template <>
struct Codec<DHTransform>
{
  static S schema()
  {
    S s = rec(false, { { "type", leafSchema(Schema::Type) }, { "d", leafSchema(Schema::Num) }, { "theta", leafSchema(Schema::Num) }, { "r", leafSchema(Schema::Num) }, { "alpha", leafSchema(Schema::Num) }, { "joint_name", leafSchema(Schema::Str) } });
    return s;
  }
};
template <>
struct Codec<DHChain>
{
  using T = DHChain;
  static S schema() { return rec(false, { { "base_transform", Codec<Isometry3d>::schema() }, { "dh_transforms", seq(Codec<DHTransform>::schema()) } }); }
  static void flat(const T& v, Leaves& l)
  {
    Codec<Isometry3d>::flat(v.getBaseOffset(), l);
    const Eigen::MatrixX4d t = v.getDHTable();
    const auto types = v.getJointTypes();
    const auto labels = v.getParamLabels();
    l.push_back(num(double(v.dof())));
    if (t.rows() != Eigen::Index(v.dof()) || types.size() != v.dof() || labels.size() != v.dof())
      throw pbt::Fail{ "tables of a chain have different sizes" };
    for (std::size_t i = 0; i < v.dof(); ++i)
    {
      l.push_back(num(types[i] == DHJointType::REVOLUTE ? 1 : types[i] == DHJointType::LINEAR ? 0 : 99));
      for (int k = 0; k < 4; ++k)
        l.push_back(num(t(Eigen::Index(i), k)));
      const std::string& d = labels[i][0];  // name + "_d"
      l.push_back(strl(d.substr(0, d.size() < 2 ? 0 : d.size() - 2)));
    }
  }
};

std::string differ(const Leaves& a, const Leaves& b)
{
  std::ostringstream o;
  o.precision(17);
  if (a.size() != b.size())
  {
    o << a.size() << " values instead of " << b.size();
    return o.str();
  }
  for (std::size_t i = 0; i < a.size(); ++i)
  {
    if (a[i].str != b[i].str || a[i].s != b[i].s)
    {
      o << "value " << i << " is '" << a[i].s << "' instead of '" << b[i].s << "'";
      return o.str();
    }
    const double tol = std::max(a[i].tol, b[i].tol);
    const bool same = a[i].v == b[i].v || (std::isnan(a[i].v) && std::isnan(b[i].v)) || std::abs(a[i].v - b[i].v) <= tol * std::max(1.0, std::max(std::abs(a[i].v), std::abs(b[i].v)));
    if (!same)
    {
      o << "value " << i << " is " << a[i].v << " instead of " << b[i].v;
      return o.str();
    }
  }
  return "";
}
struct Kind
{
  std::string name;
  S schema;
  std::function<Leaves(const YAML::Node&)> read;
  // builds the object of a valid document, writes it
  std::function<YAML::Node(const Y&, Leaves&)> write;
};
template <class T>
Kind kindRW(const std::string& n)
{
  Kind k;
  k.name = n;
  k.schema = Codec<T>::schema();
  k.read = [](const YAML::Node& y) {
    Leaves l;
    Codec<T>::flat(y.as<T>(), l);
    return l;
  };
  if constexpr (!std::is_same<T, DHChain>::value)
    k.write = [](const Y& y, Leaves& l) {
      const T t = Codec<T>::make(y);
      Codec<T>::flat(t, l);
      return YAML::Node(t);
    };
  return k;
}
const std::vector<Kind>& kinds()
{
  static const std::vector<Kind> k = { kindRW<CameraIntrinsics>("intrinsics"),
                                       kindRW<Vector2d>("vector2"),
                                       kindRW<Vector3d>("vector3"),
                                       kindRW<Eigen::Vector2f>("vector2f"),
                                       kindRW<Eigen::Vector3f>("vector3f"),
                                       kindRW<Isometry3d>("isometry"),
                                       kindRW<Eigen::Isometry3f>("isometryf"),
                                       kindRW<Correspondence2D3D>("correspondence2d3d"),
                                       kindRW<Correspondence3D3D>("correspondence3d3d"),
                                       kindRW<Correspondence2D3D::Set>("correspondences2d3d"),
                                       kindRW<Observation2D3D>("observation2d3d"),
                                       kindRW<Observation3D3D>("observation3d3d"),
                                       kindRW<Observation2D3D::Set>("observations2d3d"),
                                       kindRW<ExtrinsicHandEyeProblem2D3D>("problem2d3d"),
                                       kindRW<ExtrinsicHandEyeProblem3D3D>("problem3d3d"),
                                       kindRW<ExtrinsicHandEyeResult>("result"),
                                       kindRW<DHChain>("chain") };
  return k;
}
Y fromNode(const YAML::Node& n, int& budget, int depth = 0)
{
  if (--budget < 0 || depth > 14)
    throw std::length_error("document too large");
  Y y;
  if (n.IsMap())
  {
    y.kind = Y::Map;
    for (const auto& e : n)
      y.m.push_back({ e.first.IsScalar() ? e.first.Scalar() : "(" + std::to_string(y.m.size()) + ")", fromNode(e.second, budget, depth + 1) });
  }
  else if (n.IsSequence())
  {
    y.kind = Y::Seq;
    for (const auto& e : n)
      y.q.push_back(fromNode(e, budget, depth + 1));
  }
  else if (n.IsScalar())
    y = scalar(n.Scalar());
  return y;
}
void shuffleMaps(Case& c, Y& y)
{
  const auto p = c.perm(y.m.size());
  auto m = y.m;
  for (std::size_t i = 0; i < p.size(); ++i)
    y.m[i] = m[p[i]];
  for (auto& e : y.m)
    shuffleMaps(c, e.second);
  for (auto& e : y.q)
    shuffleMaps(c, e);
}
void collect(Y& y, std::vector<Y*>& all)
{
  all.push_back(&y);
  for (auto& e : y.m)
    collect(e.second, all);
  for (auto& e : y.q)
    collect(e, all);
}
}  // namespace

PBT(C18, roundtrip, "objects of the types that are written, with at least one value that is not 0 or 1", 30000, 1000000)
{
  const int which = c.i(0, int(kinds().size()) - 2);
  const Kind& k = kinds()[std::size_t(which)];
  c.label(k.name);
  const Y doc = genDoc(c, k.schema);
  Leaves obj;
  const YAML::Node node = k.write(doc, obj);
  for (const Leaf& l : obj)
    c.nontrivial(l.v != 0 && l.v != 1);
  std::ostringstream os;
  os << node;
  c.note(k.name, os.str().substr(0, 600));
  // what is written has the documented fields with the values of the object
  int budget = 100000;
  const Decoded d = decode(k.schema, fromNode(YAML::Load(os.str()), budget), false);
  c.check(d.state == 0, "the written " + k.name + " does not have the documented form: " + d.why);
  std::string diff = differ(d.l, obj);
  c.check(diff.empty(), "the written " + k.name + " does not describe the object: " + diff);
  const char* medium[] = { "memory", "dump", "stream", "file" };
  for (int m = 0; m < 4; ++m)
  {
    if (m == 3 && !c.b(1, 8))
      continue;
    YAML::Node in;
    if (m == 0)
      in = node;
    else if (m == 1)
      in = YAML::Load(YAML::Dump(node));
    else if (m == 2)
      in = YAML::Load(os.str());
    else
    {
      const std::string f = pbt::scratch() + "/o.yaml";
      {
        std::ofstream o(f);
        o << node;
      }
      in = YAML::LoadFile(f);
    }
    Leaves back;
    try
    {
      back = k.read(in);
    }
    catch (const std::exception& e)
    {
      c.fail(k.name + " cannot be read back (" + medium[m] + "): " + e.what());
    }
    diff = differ(back, obj);
    c.check(diff.empty(), k.name + " read back (" + medium[m] + ") differs: " + diff);
  }
}

PBT(C18, document, "documents of every type in random layout (key order, number format, block or flow style)", 20000, 600000)
{
  const Kind& k = kinds()[std::size_t(c.i(0, int(kinds().size()) - 1))];
  c.label(k.name);
  Y doc = genDoc(c, k.schema);
  if (c.b())
    shuffleMaps(c, doc);
  const std::string t = text(c, doc);
  c.note("document", t);
  c.nontrivial();
  const Decoded d = decode(k.schema, doc, false);
  if (d.state != 0)
    c.fail("harness error: generated document is not valid: " + d.why);
  Leaves l;
  try
  {
    l = k.read(YAML::Load(t));
  }
  catch (const std::exception& e)
  {
    c.fail(k.name + " refused: " + e.what());
  }
  const std::string diff = differ(l, d.l);
  c.check(diff.empty(), k.name + " misread: " + diff);
}

PBT(C18, chain_kinematics, "chains of at least one joint read from text, compared with the chain built directly", 6000, 150000)
{
  const Kind& k = kinds().back();
  S s = Codec<DHChain>::schema();
  Y doc = genDoc(c, s);
  // moderate values so that the kinematics can be compared
  Y& seqn = doc.m[1].second;
  for (Y& j : seqn.q)
    for (auto& f : j.m)
      if (f.first != "type" && f.first != "joint_name")
        f.second = scalar(fmt(c, c.r(-4, 4)));
  for (int i = 0; i < 3; ++i)
    doc.m[0].second.m[std::size_t(i)].second = scalar(fmt(c, c.r(-4, 4)));
  const std::string t = text(c, doc);
  c.note("document", t);
  const int n = int(seqn.q.size());
  c.nontrivial(n > 0);
  DHChain chain = YAML::Load(t).as<DHChain>();
  c.check(chain.dof() == std::size_t(n), "number of joints");
  VectorXd q(n);
  for (int i = 0; i < n; ++i)
    q[i] = c.r(-3, 3);
  Isometry3d ref = Codec<Isometry3d>::make(doc.m[0].second);
  for (int i = 0; i < n; ++i)
  {
    const Y& j = seqn.q[std::size_t(i)];
    double d = val(at(j, "d")), th = val(at(j, "theta"));
    (at(j, "type").s == "0" ? d : th) += q[i];
    ref = ref * iso(Matrix3d::Identity(), Vector3d(0, 0, d)) * iso(expSO3(Vector3d(0, 0, th)), Vector3d::Zero()) * iso(Matrix3d::Identity(), Vector3d(val(at(j, "r")), 0, 0)) *
          iso(expSO3(Vector3d(val(at(j, "alpha")), 0, 0)), Vector3d::Zero());
  }
  samePose(c, chain.getFK<double>(q), ref, 1e-9, 1e-9, "forward kinematics of a chain read from text");
  const VectorXd r = chain.createUniformlyRandomPose();
  c.check(r.size() == n, "random pose");
  for (int i = 0; i < n; ++i)
    c.check(r[i] >= -M_PI && r[i] <= M_PI, "random joint value outside of the limits");
  (void)k;
}

namespace
{
std::string mutate(Case& c, Y& doc)
{
  std::vector<Y*> all;
  collect(doc, all);
  Y* y = all[c.draw(all.size())];
  static const char* junk[] = { "abc", "1.5x", "1,5", "--3", "1.2.3", "e5", "0.5 0.5", "x: y" };
  switch (c.i(0, 8))
  {
    case 0:
    {
      // remove a field or element
      std::vector<Y*> maps;
      for (Y* p : all)
        if (!p->m.empty())
          maps.push_back(p);
      if (maps.empty())
        return "none";
      y = maps[c.draw(maps.size())];
      y->m.erase(y->m.begin() + long(c.draw(y->m.size())));
      return "field removed";
    }
    case 1:
      if (y->m.empty())
        return "none";
      y->m[c.draw(y->m.size())].first += c.pick({ "_", "2", "X" });
      return "field renamed";
    case 2:
    {
      std::vector<Y*> sc;
      for (Y* p : all)
        if (p->kind == Y::Scalar)
          sc.push_back(p);
      if (sc.empty())
        return "none";
      *sc[c.draw(sc.size())] = scalar(junk[c.i(0, 7)], true);
      return "junk value";
    }
    case 3:
    {
      Y n;
      n.kind = c.pick({ Y::Null, Y::Map, Y::Seq });
      *y = n;
      return "emptied";
    }
    case 4:
      if (y->kind != Y::Map)
        return "none";
      y->m.push_back({ c.pick({ "extra", "w", "frame_id" }), scalar("1") });
      return "field added";
    case 5:
    {
      // a scalar where there was a structure, or the reverse
      if (y->kind == Y::Scalar)
      {
        Y n;
        n.kind = Y::Seq;
        n.q.push_back(*y);
        *y = n;
      }
      else
        *y = scalar("7");
      return "kind changed";
    }
    case 6:
      // map to sequence of its values
      if (y->kind != Y::Map)
        return "none";
      y->kind = Y::Seq;
      for (auto& e : y->m)
        y->q.push_back(e.second);
      y->m.clear();
      return "map to sequence";
    case 7:
      // sequence to map
      if (y->kind != Y::Seq)
        return "none";
      y->kind = Y::Map;
      for (std::size_t i = 0; i < y->q.size(); ++i)
        y->m.push_back({ std::to_string(i), y->q[i] });
      y->q.clear();
      return "sequence to map";
    default:
    {
      // duplicate one field in place of another
      if (y->kind != Y::Map || y->m.size() < 2)
        return "none";
      if (c.b(1, 3))
      {
        // no rotation at all
        int k = 0;
        for (auto& e : y->m)
          if (e.first.size() == 2 && e.first[0] == 'q')
            e.second = scalar("0"), ++k;
        if (k)
          return "zero quaternion";
      }
      const std::size_t a = c.draw(y->m.size());
      const std::size_t b = (a + 1 + c.draw(y->m.size() - 1)) % y->m.size();
      y->m[b].first = y->m[a].first;
      return "field duplicated";
    }
  }
}
}  // namespace

PBT(C19, mutated, "documents with at least one effective mutation of their structure or values", 60000, 1500000)
{
  const Kind& k = kinds()[std::size_t(c.i(0, int(kinds().size()) - 1))];
  Y doc = genDoc(c, k.schema);
  const int n = c.i(0, 2) + (c.b() ? 1 : 0);
  for (int i = 0; i < n; ++i)
  {
    const std::string m = mutate(c, doc);
    c.label(m);
    c.nontrivial(m != "none");
  }
  if (c.b())
    shuffleMaps(c, doc);
  const std::string t = text(c, doc);
  c.note("type", k.name);
  c.note("document", t);
  YAML::Node node;
  try
  {
    node = YAML::Load(t);
  }
  catch (const YAML::Exception&)
  {
    c.label("no yaml");
    return;
  }
  const Decoded d = decode(k.schema, doc, false);
  c.label(d.state == 0 ? "valid" : d.state == 1 ? "malformed" : "unspecified");
  Leaves l;
  bool ok = false;
  std::string what;
  try
  {
    l = k.read(node);
    ok = true;
  }
  catch (const std::exception& e)
  {
    what = e.what();
  }
  if (d.state == 1)
    c.check(!ok, "malformed " + k.name + " was accepted: " + d.why);
  if (d.state == 0)
  {
    c.check(ok, "well-formed " + k.name + " was refused: " + what);
    const std::string diff = differ(l, d.l);
    c.check(diff.empty(), k.name + " misread: " + diff);
  }
}

PBT(C19, bytes, "texts changed at 1 to 6 places (bytes replaced, removed, inserted or copied)", 40000, 1000000)
{
  const Kind& k = kinds()[std::size_t(c.i(0, int(kinds().size()) - 1))];
  std::string t = c.b(1, 20) ? "" : text(c, genDoc(c, k.schema));
  static const std::string alphabet = "0123456789.eE+-xyzqwXdr: \n,[]{}~#'\"_ \tnull&*!|>%@`";
  const int n = c.i(1, 6);
  for (int i = 0; i < n; ++i)
  {
    const std::size_t p = t.empty() ? 0 : c.draw(t.size());
    const char ch = alphabet[c.draw(alphabet.size())];
    switch (c.i(0, 4))
    {
      case 0:
        if (!t.empty())
          t[p] = ch;
        break;
      case 1:
        if (!t.empty())
          t.erase(p, 1 + c.draw(6));
        break;
      case 2:
        t.insert(p, std::string(1 + c.draw(2), ch));
        break;
      case 3:
        if (!t.empty())
          t.insert(c.draw(t.size()), t.substr(p, 1 + c.draw(30)));
        break;
      default:
        if (c.b(1, 4))
          t.resize(p);
    }
  }
  c.note("type", k.name);
  c.note("text", t);
  c.nontrivial();
  YAML::Node node;
  try
  {
    node = YAML::Load(t);
  }
  catch (const std::exception&)
  {
    c.label("no yaml");
    return;
  }
  Leaves l;
  bool ok = false;
  try
  {
    l = k.read(node);
    ok = true;
  }
  catch (const std::exception&)
  {
  }
  Decoded d;
  try
  {
    int budget = 20000;
    d = decode(k.schema, fromNode(node, budget), true);
  }
  catch (const std::exception&)
  {
    c.label("unusual document");
    return;
  }
  c.label(d.state == 0 ? "valid" : d.state == 1 ? "malformed" : "unspecified");
  if (d.state == 1)
    c.check(!ok, "malformed " + k.name + " was accepted: " + d.why);
  if (d.state == 0)
  {
    c.check(ok, "well-formed " + k.name + " was refused");
    const std::string diff = differ(l, d.l);
    c.check(diff.empty(), k.name + " misread: " + diff);
  }
}
