#include <ceres/jet.h>
#include "geom.h"
#include <rct_optimizations/dh_chain.h>
#include <algorithm>
#include <cstring>
#include <sys/wait.h>
#include <unistd.h>
using namespace geom;
using namespace rct_optimizations;

namespace
{
struct Joint
{
  Eigen::Vector4d p;  // d theta r alpha
  bool linear;
  std::string name;
  std::size_t seed;
  double lo, hi;
  bool limits;
};
struct Robot
{
  std::vector<Joint> joints;
  Isometry3d base = Isometry3d::Identity();
};
Eigen::Vector4d anyParams(Case& c)
{
  auto angle = [&]() {
    const int k = c.i(0, 2);
    return k == 0 ? (M_PI / 2) * c.i(0, 3) : k == 1 ? c.r(-M_PI, M_PI) : c.r(-10, 10);
  };
  auto len = [&]() { return c.b(1, 3) ? 0.0 : c.r(-2, 2); };
  Eigen::Vector4d v;
  v << len(), angle(), len(), angle();
  return v;
}
Robot anyRobot(Case& c, int minJoints = 0, int maxJoints = 8)
{
  Robot r;
  const int n = maxJoints == 8 && c.b(1, 12) ? c.i(8, 16) : c.i(minJoints, maxJoints);
  for (int i = 0; i < n; ++i)
  {
    Joint j;
    j.p = anyParams(c);
    j.linear = c.b(1, 3);
    j.name = c.pick({ std::string("j"), std::string("joint"), std::string(""), std::string("a_b") }) +
             (c.b(1, 5) ? "" : std::to_string(i));
    j.seed = c.draw(1u << 31);
    j.limits = c.b();
    j.lo = j.limits ? c.r(-20, 20) : -M_PI;
    j.hi = j.limits ? j.lo + c.r(0, 15) : M_PI;
    r.joints.push_back(j);
  }
  if (c.b())
    r.base = anyIso(c);
  return r;
}
DHChain make(Case& c, const Robot& r)
{
  std::vector<DHTransform> t;
  for (const Joint& j : r.joints)
  {
    DHTransform d(j.p, j.linear ? DHJointType::LINEAR : DHJointType::REVOLUTE, j.name, j.seed);
    if (j.limits)
    {
      d.min = j.lo;
      d.max = j.hi;
    }
    t.push_back(d);
  }
  return r.base.matrix() == Eigen::Matrix4d(Eigen::Matrix4d::Identity()) && c.b() ? DHChain(t) : DHChain(t, r.base);
}
Eigen::Matrix4d refLink(const Joint& j, double q, const Eigen::Vector4d& off)
{
  Eigen::Vector4d v = j.p + off;
  v[j.linear ? 0 : 1] += q;
  const double ct = std::cos(v[1]), st = std::sin(v[1]), ca = std::cos(v[3]), sa = std::sin(v[3]);
  Eigen::Matrix4d m;
  m << ct, -st * ca, st * sa, v[2] * ct,  //
      st, ct * ca, -ct * sa, v[2] * st,   //
      0, sa, ca, v[0],                    //
      0, 0, 0, 1;
  return m;
}
Eigen::Matrix4d refFK(const Robot& r, const VectorXd& q, const MatrixXd& off)
{
  Eigen::Matrix4d m = r.base.matrix();
  for (int i = 0; i < q.size(); ++i)
    m = m * refLink(r.joints[i], q[i], off.row(i).transpose());
  return m;
}
double scaleOf(const Robot& r, const VectorXd& q)
{
  double s = 1 + r.base.translation().norm();
  for (const Joint& j : r.joints)
    s += std::abs(j.p[0]) + std::abs(j.p[2]);
  return s + q.cwiseAbs().sum();
}
VectorXd anyJoints(Case& c, int n)
{
  VectorXd q(n);
  for (int i = 0; i < n; ++i)
    q[i] = c.b(1, 6) ? 0.0 : c.r(-7, 7);
  return q;
}
void describe(Case& c, const Robot& r, const VectorXd& q)
{
  for (const Joint& j : r.joints)
  {
    std::ostringstream o;
    o << (j.linear ? "linear " : "revolute ") << j.p.transpose() << " '" << j.name << "'";
    c.note("joint", o.str());
  }
  c.note("base", str(r.base));
  c.note("values", q.transpose());
}
void same(Case& c, const Isometry3d& a, const Eigen::Matrix4d& b, double tol, const std::string& what)
{
  if (!((a.matrix() - b).cwiseAbs().maxCoeff() <= tol))
  {
    std::ostringstream o;
    o << what << "\n got " << a.matrix().format(Eigen::IOFormat(9, 0, " ", "; ")) << "\n expected "
      << b.format(Eigen::IOFormat(9, 0, " ", "; "));
    c.fail(o.str());
  }
}
}  // namespace

PBT(C15, forward, "chains with at least one joint and at least one joint value", 120000, 3000000)
{
  const Robot r = anyRobot(c);
  const DHChain chain = make(c, r);
  const int n = int(r.joints.size());
  const int k = c.b() ? n : c.i(0, n);
  const VectorXd q = anyJoints(c, k);
  describe(c, r, q);
  c.nontrivial(k > 0);
  c.label(k < n ? "partial" : "full");
  const double tol = 1e-12 * scaleOf(r, q);
  same(c, chain.getFK<double>(q), refFK(r, q, MatrixXd::Zero(n, 4)), tol, "forward kinematics");
  c.check(chain.dof() == std::size_t(n), "dof");
  same(c, chain.getBaseOffset(), r.base.matrix(), 0, "base offset");
  const Eigen::MatrixX4d table = chain.getDHTable();
  const auto types = chain.getJointTypes();
  const auto labels = chain.getParamLabels();
  c.check(table.rows() == n && types.size() == std::size_t(n) && labels.size() == std::size_t(n), "sizes of the chain description");
  for (int i = 0; i < n; ++i)
  {
    const Joint& j = r.joints[i];
    c.check(table.row(i).transpose() == j.p, "DH table row");
    c.check((types[i] == DHJointType::LINEAR) == j.linear, "joint type");
    const std::array<std::string, 4> want{ j.name + "_d", j.name + "_theta", j.name + "_r", j.name + "_alpha" };
    c.check(labels[i] == want, "parameter labels: " + labels[i][0] + " " + labels[i][1] + " " + labels[i][2] + " " + labels[i][3]);
    const double v = c.r(-7, 7);
    same(c, chain.getRelativeTransform(i, v), refLink(j, v, Eigen::Vector4d::Zero()), 1e-12 * (scaleOf(r, q) + std::abs(v)), "relative transform");
  }
}

PBT(C15, offsets, "non-zero parameter offsets on at least one joint", 80000, 2000000)
{
  const Robot r = anyRobot(c, 1);
  const DHChain chain = make(c, r);
  const int n = int(r.joints.size());
  Eigen::Matrix<double, Eigen::Dynamic, 4> off(n, 4);
  for (int i = 0; i < n; ++i)
    for (int k = 0; k < 4; ++k)
      off(i, k) = c.b(1, 3) ? c.r(-2, 2) : c.r(-0.01, 0.01);
  const int k = c.b() ? n : c.i(0, n);
  const VectorXd q = anyJoints(c, k);
  describe(c, r, q);
  c.note("offsets", off.reshaped<Eigen::RowMajor>().transpose());
  c.nontrivial(off.cwiseAbs().maxCoeff() > 0 && k > 0);
  const double tol = 1e-12 * (scaleOf(r, q) + off.cwiseAbs().sum());
  // only the rows of the given joint values are needed
  const int rows = c.b() ? n : k;
  const Eigen::Matrix<double, Eigen::Dynamic, 4> used = off.topRows(rows);
  same(c, chain.getFK<double>(q, used), refFK(r, q, off), tol, "forward kinematics with offsets");
  const DHChain moved(chain, off);
  same(c, moved.getFK<double>(q), refFK(r, q, off), tol, "forward kinematics of the chain built with offsets");
  c.check(moved.dof() == chain.dof() && moved.getJointTypes() == chain.getJointTypes(), "joint types changed by offsets");
  c.check(moved.getParamLabels() == chain.getParamLabels(), "joint names changed by offsets");
  same(c, moved.getBaseOffset(), r.base.matrix(), 0, "base offset changed by offsets");
  c.near((moved.getDHTable() - chain.getDHTable() - off).cwiseAbs().maxCoeff(), 0, 1e-13, "DH table of the chain with offsets");
  same(c, chain.getFK<double>(q), refFK(r, q, MatrixXd::Zero(n, 4)), tol, "original chain changed");
  for (int s = 0; s < 3; ++s)
  {
    const VectorXd v = moved.createUniformlyRandomPose();
    c.check(v.size() == n, "size of a random pose of the chain with offsets");
    for (int i = 0; i < n; ++i)
      c.check(v[i] >= r.joints[i].lo && v[i] <= r.joints[i].hi, "joint limits lost by offsets");
  }
}

PBT(C15, refused, "too many joint values, too few offset rows or an index outside of the chain", 30000, 500000)
{
  const Robot r = anyRobot(c);
  const DHChain chain = make(c, r);
  const int n = int(r.joints.size());
  const int kind = c.i(0, 3);
  c.nontrivial();
  bool threw = false;
  try
  {
    if (kind == 0)
    {
      c.label("too many joint values");
      const VectorXd q = anyJoints(c, n + c.i(1, 4));
      describe(c, r, q);
      c.b() ? chain.getFK<double>(q) : chain.getFK<double>(q, Eigen::Matrix<double, Eigen::Dynamic, 4>::Zero(q.size() + c.i(0, 2), 4));
    }
    else if (kind == 1)
    {
      c.label("too few offset rows");
      if (n == 0)
        c.discard();
      const VectorXd q = anyJoints(c, c.i(1, n));
      describe(c, r, q);
      chain.getFK<double>(q, Eigen::Matrix<double, Eigen::Dynamic, 4>::Zero(q.size() - c.i(1, int(q.size())), 4));
    }
    else if (kind == 2)
    {
      c.label("index outside");
      chain.getRelativeTransform(c.b() ? -1 - c.i(0, 1000) : n + c.i(0, 1000), 0.1);
    }
    else
    {
      c.label("chain from too few offset rows");
      if (n == 0)
        c.discard();
      DHChain moved(chain, Eigen::MatrixX4d::Zero(n - c.i(1, n), 4));
    }
  }
  catch (const std::exception&)
  {
    threw = true;
  }
  c.check(threw, "invalid request was not refused");
}

PBT(C15, derivative, "chains with at least one joint value; derivatives by joint values and offsets", 6000, 150000)
{
  const Robot r = anyRobot(c, 1, 4);
  const DHChain chain = make(c, r);
  const int n = int(r.joints.size());
  const int k = c.i(1, n);
  const VectorXd q = anyJoints(c, k);
  MatrixXd off(n, 4);
  for (int i = 0; i < n; ++i)
    for (int s = 0; s < 4; ++s)
      off(i, s) = c.r(-0.3, 0.3);
  describe(c, r, q);
  c.nontrivial();
  using J = ceres::Jet<double, 20>;
  Eigen::Matrix<J, Eigen::Dynamic, 1> qj(k);
  Eigen::Matrix<J, Eigen::Dynamic, 4> oj(n, 4);
  for (int i = 0; i < k; ++i)
    qj[i] = J(q[i], i);
  for (int i = 0; i < n; ++i)
    for (int s = 0; s < 4; ++s)
      oj(i, s) = J(off(i, s), 4 + 4 * i + s);
  const bool plain = c.b(1, 4);
  if (plain)
    off.setZero();
  const auto f = plain ? chain.getFK<J>(qj) : chain.getFK<J>(qj, oj);
  const double sc = scaleOf(r, q);
  const Eigen::Matrix4d f0 = refFK(r, q, off);
  for (int v = 0; v < 20; ++v)
  {
    if (v < 4 ? v >= k : (v - 4) / 4 >= n)
      continue;
    VectorXd qa = q, qb = q;
    MatrixXd oa = off, ob = off;
    const double h = 1e-5;
    (v < 4 ? qa[v] : oa((v - 4) / 4, (v - 4) % 4)) += h;
    (v < 4 ? qb[v] : ob((v - 4) / 4, (v - 4) % 4)) -= h;
    const Eigen::Matrix4d d = plain && v >= 4 ? Eigen::Matrix4d(Eigen::Matrix4d::Zero()) : Eigen::Matrix4d((refFK(r, qa, oa) - refFK(r, qb, ob)) / (2 * h));
    for (int a = 0; a < 4; ++a)
      for (int b = 0; b < 4; ++b)
      {
        c.near(f.matrix()(a, b).a, f0(a, b), 1e-12 * sc, "value through automatic differentiation");
        if (a < 3)
          c.near(f.matrix()(a, b).v[v], d(a, b), 1e-8 * sc, "derivative by " + std::string(v < 4 ? "joint value" : "offset"));
      }
  }
}

// ---------------------------------------------------------------------------------------------------- random poses
namespace
{
// runs the sampling in a fresh copy of this process (the library may keep hidden generator state)
std::vector<double> inChild(Case& c, const std::function<std::vector<double>()>& f)
{
  int fd[2];
  if (pipe(fd) != 0)
    c.discard();
  const pid_t pid = fork();
  if (pid < 0)
    c.discard();
  if (pid == 0)
  {
    close(fd[0]);
    std::vector<double> v;
    int rc = 0;
    try
    {
      v = f();
    }
    catch (...)
    {
      rc = 1;
    }
    const char* p = reinterpret_cast<const char*>(v.data());
    std::size_t left = v.size() * sizeof(double);
    while (left)
    {
      const ssize_t w = write(fd[1], p, left);
      if (w <= 0)
        break;
      p += w;
      left -= std::size_t(w);
    }
    _exit(rc);
  }
  close(fd[1]);
  std::vector<double> out;
  std::string buf;
  char tmp[65536];
  ssize_t n;
  while ((n = read(fd[0], tmp, sizeof(tmp))) > 0)
    buf.append(tmp, std::size_t(n));
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  c.check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "sampling failed or crashed");
  out.resize(buf.size() / sizeof(double));
  std::memcpy(out.data(), buf.data(), out.size() * sizeof(double));
  return out;
}
std::vector<double> sample(const DHChain& chain, int count)
{
  std::vector<double> v;
  for (int s = 0; s < count; ++s)
  {
    const VectorXd q = chain.createUniformlyRandomPose();
    v.push_back(double(q.size()));
    for (int i = 0; i < q.size(); ++i)
      v.push_back(q[i]);
  }
  return v;
}
void describe(Case& c, const Robot& r)
{
  for (const Joint& j : r.joints)
  {
    std::ostringstream o;
    o << "[" << j.lo << ", " << j.hi << "] seed " << j.seed;
    c.note("joint", o.str());
  }
}
}  // namespace

PBT(C16, limits, "chains with at least one joint with its own limits", 6000, 100000)
{
  const Robot r = anyRobot(c, 0);
  const DHChain chain = make(c, r);
  const int n = int(r.joints.size());
  describe(c, r);
  for (const Joint& j : r.joints)
    c.nontrivial(j.limits);
  const std::vector<double> v = inChild(c, [&]() { return sample(chain, 60); });
  c.check(v.size() == std::size_t(60 * (n + 1)), "number of values");
  for (int s = 0; s < 60; ++s)
  {
    c.check(v[s * (n + 1)] == n, "a random pose does not have one value per joint");
    for (int i = 0; i < n; ++i)
    {
      const double x = v[s * (n + 1) + 1 + i];
      c.check(x >= r.joints[i].lo && x <= r.joints[i].hi, "joint value " + std::to_string(x) + " outside of the limits of joint " + std::to_string(i));
    }
  }
}

PBT(C16, uniform, "joints whose range is not empty", 800, 20000)
{
  Robot r = anyRobot(c, 1, 5);
  for (Joint& j : r.joints)
    if (j.limits && j.hi - j.lo < 1e-3)
      j.hi = j.lo + 1;
  const bool equalSeeds = c.b(1, 3);
  if (equalSeeds)
    for (Joint& j : r.joints)
      j.seed = r.joints[0].seed;
  c.label(equalSeeds ? "equal seeds" : "own seeds");
  const DHChain chain = make(c, r);
  const int n = int(r.joints.size()), N = 600;
  describe(c, r);
  c.nontrivial();
  const std::vector<double> v = inChild(c, [&]() { return sample(chain, N); });
  c.check(v.size() == std::size_t(N * (n + 1)), "number of values");
  MatrixXd u(N, n);
  for (int s = 0; s < N; ++s)
    for (int i = 0; i < n; ++i)
      u(s, i) = (v[s * (n + 1) + 1 + i] - r.joints[i].lo) / (r.joints[i].hi - r.joints[i].lo);
  for (int i = 0; i < n; ++i)
  {
    std::vector<double> x(u.col(i).data(), u.col(i).data() + N);
    // consecutive values of one joint are independent of each other
    double ac = 0;
    for (int s = 0; s + 1 < N; ++s)
      ac += (x[s] - 0.5) * (x[s + 1] - 0.5) * 12 / (N - 1);
    c.le(std::abs(ac), 0.3, "consecutive values of joint " + std::to_string(i) + " are correlated");
    std::sort(x.begin(), x.end());
    double ks = 0;
    for (int s = 0; s < N; ++s)
      ks = std::max(ks, std::max(std::abs(x[s] - double(s) / N), std::abs(x[s] - double(s + 1) / N)));
    c.le(ks, 0.16, "values of joint " + std::to_string(i) + " do not cover its range evenly (Kolmogorov distance)");
    for (int k = 0; k < i; ++k)
    {
      const double cc = (u.col(i).array() - 0.5).matrix().dot((u.col(k).array() - 0.5).matrix()) * 12 / N;
      c.le(std::abs(cc), 0.3, "values of joints " + std::to_string(k) + " and " + std::to_string(i) + " depend on each other");
    }
  }
}

PBT(C16, reproducible, "chains whose joints have explicit seeds, sampled in two fresh processes", 1200, 20000)
{
  Robot r = anyRobot(c, 1, 5);
  for (Joint& j : r.joints)
    j.hi = j.lo + 1 + std::abs(j.hi - j.lo);
  const int N = c.i(1, 20);
  describe(c, r);
  c.nontrivial();
  auto go = [&](const Robot& x) { return inChild(c, [&]() { return sample(make(c, x), N); }); };
  const std::vector<double> a = go(r), b = go(r);
  c.check(a == b, "equal seeds gave different poses");
  Robot o = r;
  for (Joint& j : o.joints)
    j.seed = j.seed ^ (1u << c.i(0, 30));
  // a single value may coincide only with negligible probability
  c.check(go(o) != a, "different seeds gave equal poses");
}
