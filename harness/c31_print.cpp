// C31: printed results say what was computed.
#include "geom.h"
#include <array>
#include <rct_common/print_utils.h>
using namespace geom;

namespace
{
struct Capture
{
  std::ostringstream out;
  std::streambuf* old;
  std::ios::fmtflags flags;
  std::streamsize precision;
  Capture() : old(std::cout.rdbuf(out.rdbuf())), flags(std::cout.flags()), precision(std::cout.precision()) {}
  ~Capture() { restore(); }
  void restore()
  {
    if (old)
      std::cout.rdbuf(old);
    old = nullptr;
  }
  std::vector<std::string> lines(Case& c)
  {
    restore();
    c.check(std::cout.flags() == flags && std::cout.precision() == precision, "printing changed the format of std::cout");
    std::vector<std::string> l;
    std::istringstream in(out.str());
    for (std::string s; std::getline(in, s);)
      l.push_back(s);
    c.check(!out.str().empty() && out.str().back() == '\n', "output does not end its last line");
    return l;
  }
};
// every number of a line, in order; words touching a number are kept apart by 'text'
std::vector<double> numbers(const std::string& s)
{
  std::vector<double> v;
  for (std::size_t i = 0; i < s.size();)
  {
    const char ch = s[i];
    const bool sign = (ch == '-' || ch == '+') && i + 1 < s.size() && (isdigit(s[i + 1]) || s[i + 1] == '.');
    if ((isdigit(ch) || sign) && (i == 0 || !isalpha(s[i - 1])))
    {
      char* e;
      v.push_back(std::strtod(s.c_str() + i, &e));
      i = std::size_t(e - s.c_str());
    }
    else
      ++i;
  }
  return v;
}
// six significant digits
bool printed(double shown, double v, double abs = 0) { return std::abs(shown - v) <= 0.51e-5 * std::abs(v) + abs; }
void values(Case& c, const std::string& line, const std::vector<double>& want, const std::string& what, double abs = 0)
{
  const std::vector<double> n = numbers(line);
  if (n.size() != want.size())
    c.fail(what + ": " + std::to_string(n.size()) + " numbers instead of " + std::to_string(want.size()) + " in: " + line);
  for (std::size_t i = 0; i < n.size(); ++i)
    if (!printed(n[i], want[i], abs))
      c.fail(what + ": number " + std::to_string(i) + " is " + std::to_string(n[i]) + " instead of " + std::to_string(want[i]) + " in: " + line);
}
bool starts(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }
std::string name(Case& c, bool digits = true)
{
  static const std::string alphabet = "abcdefghij_/ XYZ";
  std::string s;
  for (int n = c.i(1, 20); n > 0; --n)
    s += alphabet[c.draw(alphabet.size())];
  if (digits && c.b(1, 4))
    s += std::to_string(c.i(0, 99));
  return s;
}
double anyValue(Case& c)
{
  switch (c.i(0, 5))
  {
    case 0:
      return 0;
    case 1:
      return c.i(-1000, 1000);
    case 2:
      return (c.b() ? 1 : -1) * c.logr(1e-20, 1e20);
    default:
      return c.r(-2000, 2000);
  }
}
// roll, pitch and yaw of a line as URDF defines them: rotations about fixed x, y and z, in this order
Matrix3d urdf(const std::vector<double>& rpy) { return expSO3(Vector3d(0, 0, rpy[2])) * expSO3(Vector3d(0, rpy[1], 0)) * expSO3(Vector3d(rpy[0], 0, 0)); }
// rpy="r(d deg) p(d deg) y(d deg)"
void rpyLine(Case& c, const std::string& line, const Matrix3d& r)
{
  const auto at = line.find("rpy=\"");
  if (at == std::string::npos)
    c.fail("no roll, pitch and yaw in: " + line);
  const std::vector<double> n = numbers(line.substr(at + 5));
  if (n.size() != 6)
    c.fail("not six numbers in: " + line);
  for (int i = 0; i < 3; ++i)
    c.check(std::abs(n[2 * i] * 180 / M_PI - n[2 * i + 1]) <= 2e-5 * std::abs(n[2 * i + 1]) + 1e-300, "radians and degrees disagree in: " + line);
  c.check((urdf({ n[0], n[2], n[4] }) - r).cwiseAbs().maxCoeff() < 5e-5, "roll, pitch and yaw are another rotation than printed: " + line);
  c.check((urdf({ n[1] * M_PI / 180, n[3] * M_PI / 180, n[5] * M_PI / 180 }) - r).cwiseAbs().maxCoeff() < 5e-5, "roll, pitch and yaw in degrees are another rotation: " + line);
}
void matrixLines(Case& c, const std::vector<std::string>& l, std::size_t at, const Isometry3d& t)
{
  if (l.size() < at + 4)
    c.fail("matrix not printed");
  for (int i = 0; i < 4; ++i)
  {
    const std::vector<double> n = numbers(l[at + i]);
    if (n.size() != 4)
      c.fail("matrix row is: " + l[at + i]);
    for (int k = 0; k < 4; ++k)
      if (!printed(n[k], t.matrix()(i, k), 1e-15))
        c.fail("matrix element differs in: " + l[at + i]);
  }
}
// numbers in names of frames would be taken for values
std::size_t find(Case& c, const std::vector<std::string>& l, const std::string& what, std::size_t from = 0)
{
  for (std::size_t i = from; i < l.size(); ++i)
    if (l[i].find(what) != std::string::npos)
      return i;
  c.fail("'" + what + "' is not in the output");
  return 0;
}
}  // namespace

PBT(C31, values, "values with fractions or exponents", 20000, 500000)
{
  std::array<double, 4> in;
  std::array<double, 5> di;
  for (double& d : in)
    d = anyValue(c);
  for (double& d : di)
    d = c.b() ? anyValue(c) : c.r(-1, 1);
  c.nontrivial(in[0] != std::floor(in[0]));
  const Vector3d v(anyValue(c), anyValue(c), anyValue(c));
  const Eigen::Quaterniond q(anyRot(c));
  for (double d : in)
    c.note("value", d);
  values(c, rct_common::getStringXYZ(v), { v.x(), v.y(), v.z() }, "position");
  c.check(starts(rct_common::getStringXYZ(v), "xyz=\""), "label of a position");
  values(c, rct_common::getStringQuaternion(q), { q.x(), q.y(), q.z(), q.w() }, "quaternion");
  c.check(starts(rct_common::getStringQuaternion(q), "qxyzw=\""), "label of a quaternion");
  // eulerAngles(2, 1, 0): yaw, pitch, roll
  const Vector3d e(c.r(-M_PI, M_PI), c.r(-M_PI / 2, M_PI / 2), c.r(-M_PI, M_PI));
  rpyLine(c, rct_common::getStringRPY(e), urdf({ e[2], e[1], e[0] }));
  const std::string d1 = name(c, false), d2 = name(c, false);
  Capture cap;
  rct_common::printCameraIntrinsics(in, d1);
  rct_common::printCameraDistortion(di, d2);
  rct_common::printNewLine();
  const auto l = cap.lines(c);
  const std::string all = cap.out.str();
  // every value follows its own label
  auto labelled = [&](std::size_t from, const std::vector<std::pair<std::string, double>>& w) {
    for (const auto& e : w)
    {
      const auto p = all.find(e.first + " = ", from);
      if (p == std::string::npos)
        c.fail(e.first + " is not printed");
      if (!printed(std::strtod(all.c_str() + p + e.first.size() + 3, nullptr), e.second))
        c.fail(e.first + " is printed as another value");
    }
  };
  c.check(starts(all, d1 + ":\n"), "description of the intrinsics");
  const auto p = all.find("\n" + d2 + ":\n", d1.size());
  c.check(p != std::string::npos, "description of the distortion");
  const auto at = d1.size();
  labelled(at, { { "fx", in[0] }, { "fy", in[1] }, { "cx", in[2] }, { "cy", in[3] } });
  labelled(at, { { "k1", di[0] }, { "k2", di[1] }, { "p1", di[2] }, { "p2", di[3] }, { "k3", di[4] } });
  c.check(l.back().empty(), "a new line");
}

PBT(C31, transform, "rotation other than none", 15000, 400000)
{
  Isometry3d t = anyIso(c, c.b(1, 5) ? c.logr(1e-6, 1e6) : 2.0);
  if (c.b(1, 5))
  {
    // gimbal lock
    t.linear() = expSO3(Vector3d(0, 0, c.r(-3, 3))) * expSO3(Vector3d(0, (c.b() ? 1 : -1) * (M_PI / 2 - (c.b() ? 0 : c.logr(1e-9, 1e-2))), 0)) * expSO3(Vector3d(c.r(-3, 3), 0, 0));
    c.label("pitch near a right angle");
  }
  c.note("transform", t.matrix());
  c.nontrivial(rotAngle(t.linear()) > 1e-3);
  const std::string parent = name(c), child = name(c), desc = name(c);
  Capture cap;
  rct_common::printTransform(t, parent, child, desc);
  const auto l = cap.lines(c);
  c.check(l[0] == desc + ":", "description");
  matrixLines(c, l, 1, t);
  find(c, l, parent + " to " + child);
  values(c, l[find(c, l, "xyz=\"")].substr(4), { t.translation().x(), t.translation().y(), t.translation().z() }, "position");
  rpyLine(c, l[find(c, l, "rpy=\"", 5)], t.linear());
  const std::vector<double> q = numbers(l[find(c, l, "qxyzw=\"", 5)].substr(7));
  c.check(q.size() == 4, "quaternion");
  const Eigen::Quaterniond g(q[3], q[0], q[1], q[2]);
  c.check(std::abs(g.norm() - 1) < 1e-5, "quaternion without unit length");
  c.check((g.toRotationMatrix() - t.linear()).cwiseAbs().maxCoeff() < 5e-5, "quaternion is another rotation than printed");
}

PBT(C31, difference, "transforms that differ in position and rotation", 15000, 400000)
{
  const Isometry3d a = anyIso(c);
  Isometry3d b = anyIso(c);
  if (c.b(1, 3))
    b = a * iso(expSO3(dir(c) * c.logr(1e-6, 1)), dir(c) * c.logr(1e-6, 1));
  c.note("first", a.matrix());
  c.note("second", b.matrix());
  const double angle = rotDiff(a, b);
  c.nontrivial(angle > 1e-3 && transDiff(a, b) > 1e-6);
  const std::string parent = name(c), child = name(c), desc = name(c);
  Capture cap;
  rct_common::printTransformDiff(a, b, parent, child, desc);
  const auto l = cap.lines(c);
  c.check(l[0] == desc + ":", "description");
  const Matrix3d rel = a.linear().transpose() * b.linear();
  const Vector3d world = b.translation() - a.translation(), own = a.linear().transpose() * world;
  std::size_t at = 0;
  for (int k = 0; k < 2; ++k)
  {
    at = find(c, l, "DELTA S", at);
    const Vector3d& d = k ? own : world;
    values(c, l[at].substr(7), { d.norm(), d.x(), d.y(), d.z() }, k ? "difference of position seen from the first transform" : "difference of position", 1e-14);
    ++at;
    const std::string& s = l[find(c, l, "DELTA A", at)];
    const std::vector<double> n = numbers(s);
    c.check(!n.empty() && std::abs(n[0] - angle * 180 / M_PI) <= 1e-5 * angle * 180 / M_PI + 2e-6, "angle between the transforms: " + s + " instead of " + std::to_string(angle * 180 / M_PI));
    rpyLine(c, s, rel);
  }
  Isometry3d delta = iso(rel, own);
  const std::size_t m = find(c, l, "Relative To Transform 1") + 1;
  if (l.size() < m + 4)
    c.fail("matrix not printed");
  for (int i = 0; i < 4; ++i)
  {
    const std::vector<double> n = numbers(l[m + i]);
    c.check(n.size() == 4, "matrix row is: " + l[m + i]);
    for (int k = 0; k < 4; ++k)
      c.check(printed(n[k], delta.matrix()(i, k), 1e-14), "relative matrix differs in: " + l[m + i]);
  }
  std::size_t heads = 0;
  for (const auto& s : l)
    heads += s.find(parent + " to " + child) != std::string::npos;
  c.check(heads >= 2, "names of the frames");
}

PBT(C31, results, "costs other than zero and one", 10000, 300000)
{
  const bool conv = c.b();
  const double i = c.b(1, 10) ? c.i(0, 1) : c.logr(1e-30, 1e10), f = c.b(1, 10) ? c.i(0, 1) : c.logr(1e-30, 1e10);
  c.note("initial", i);
  c.note("final", f);
  c.nontrivial(i != 0 && i != 1 && f != 0 && f != 1);
  Capture cap;
  rct_common::printOptResults(conv, i, f);
  const auto l = cap.lines(c);
  const std::string& s = l[find(c, l, "converge")];
  const std::vector<double> n = numbers(s);
  c.check(n.size() == 1 ? n[0] == conv : s.find(conv ? "true" : "false") != std::string::npos, "convergence: " + s);
  values(c, l[find(c, l, "Initial cost")], { std::sqrt(i) }, "initial cost");
  values(c, l[find(c, l, "Final cost")], { std::sqrt(f) }, "final cost");
}

PBT(C31, title, "titles longer than the width, or of odd length", 10000, 300000)
{
  std::string t;
  for (int n = c.i(0, 120); n > 0; --n)
    t += char('a' + c.draw(26));
  const int width = c.b(1, 3) ? 80 : c.i(-5, 200);
  c.note("length", t.size());
  c.note("width", width);
  c.nontrivial(int(t.size()) + 8 > width || t.size() % 2 == 1);
  Capture cap;
  if (width == 80 && c.b())
    rct_common::printTitle(t);
  else
    rct_common::printTitle(t, width);
  const auto l = cap.lines(c);
  c.check(l.size() == 3, "a title has three lines");
  c.check(l[0] == l[2] && l[0].find_first_not_of('*') == std::string::npos, "frame of the title");
  c.check(l[0].size() == l[1].size(), "lines of a title of different length");
  c.check(int(l[0].size()) >= width, "title narrower than asked for");
  c.check(int(l[0].size()) <= std::max(width, int(t.size()) + 8) + 1, "title wider than needed");
  const auto p = l[1].find(" " + t + " ");
  c.check(p != std::string::npos, "text of the title");
  c.check(p == l[1].size() - p - t.size() - 2, "title is not centred");
  c.check(l[1].substr(0, p).find_first_not_of('*') == std::string::npos && p >= 1, "line of the title");
}
