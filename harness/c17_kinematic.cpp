#include "c17_unit.h"
#include "geom.h"
#include <algorithm>
#include <fcntl.h>
#include <unistd.h>
using namespace geom;
using namespace rct_optimizations;

namespace
{
struct Link
{
  Eigen::Vector4d p;
  bool linear = false;
  std::string name;
};
struct Chain
{
  std::vector<Link> links;
  Isometry3d base = Isometry3d::Identity();
  DHChain make() const
  {
    std::vector<DHTransform> t;
    for (const Link& l : links)
      t.emplace_back(l.p, l.linear ? DHJointType::LINEAR : DHJointType::REVOLUTE, l.name, 1);
    return DHChain(t, base);
  }
  Isometry3d fk(const VectorXd& q, const MatrixXd& off) const
  {
    Isometry3d m = base;
    for (int i = 0; i < q.size(); ++i)
    {
      Eigen::Vector4d v = links[i].p + off.row(i).transpose();
      v[links[i].linear ? 0 : 1] += q[i];
      m = m * iso(expSO3(Vector3d(0, 0, v[1])), Vector3d(0, 0, v[0])) * iso(expSO3(Vector3d(v[3], 0, 0)), Vector3d(v[2], 0, 0));
    }
    return m;
  }
};
// Variables in the order of the eight documented blocks
struct Vars
{
  MatrixXd cam, tgt;  // offsets
  std::array<Vector3d, 6> v;
  VectorXd flat() const
  {
    VectorXd x(cam.size() + tgt.size() + 18);
    x << Eigen::Map<const VectorXd>(cam.data(), cam.size()), Eigen::Map<const VectorXd>(tgt.data(), tgt.size()), v[0], v[1], v[2], v[3], v[4], v[5];
    return x;
  }
  void set(const VectorXd& x)
  {
    int n = 0;
    for (int i = 0; i < cam.size(); ++i)
      cam(i) = x[n++];
    for (int i = 0; i < tgt.size(); ++i)
      tgt(i) = x[n++];
    for (auto& a : v)
      for (int i = 0; i < 3; ++i)
        a[i] = x[n++];
  }
  Isometry3d pose(int k) const { return iso(expSO3(v[2 * k + 1]), v[2 * k]); }
};
struct Meas
{
  VectorXd qa, qb;
  std::vector<Vector3d> pts;  // 2D: target points and pixels
  std::vector<Vector2d> px;
  Isometry3d pose;  // 6D
};
struct Kin
{
  bool six = false;
  Chain cam, tgt;
  CameraIntrinsics K;
  Vars start, truth;
  std::array<std::vector<int>, 8> mask;
  std::vector<Meas> meas;
  double sCam = 1e-3, sTgt = 1e-3, weight = 100;
  std::vector<int> blockSizes() const
  {
    return { int(cam.links.size()) * 4, int(tgt.links.size()) * 4, 3, 3, 3, 3, 3, 3 };
  }
  std::vector<bool> freeVars() const
  {
    std::vector<bool> f;
    const auto bs = blockSizes();
    for (int b = 0; b < 8; ++b)
      for (int i = 0; i < bs[b]; ++i)
        f.push_back(std::find(mask[b].begin(), mask[b].end(), i) == mask[b].end());
    return f;
  }
  bool blockFixed(int b) const
  {
    std::set<int> s(mask[b].begin(), mask[b].end());
    return int(s.size()) == blockSizes()[b];
  }
  Isometry3d camToTarget(const Vars& x, const Meas& m) const
  {
    return (cam.fk(m.qa, x.cam) * x.pose(0)).inverse() * (x.pose(2) * tgt.fk(m.qb, x.tgt) * x.pose(1));
  }
  int dataResiduals() const
  {
    int n = 0;
    for (const Meas& m : meas)
      n += six ? 4 : 2 * int(m.px.size());
    return n;
  }
  VectorXd residuals(const Vars& x) const
  {
    std::vector<double> r;
    for (const Meas& m : meas)
    {
      const Isometry3d t = camToTarget(x, m);
      if (six)
      {
        const Isometry3d e = m.pose * t.inverse();
        r.insert(r.end(), { e.translation().x(), e.translation().y(), e.translation().z(), weight * rotDiff(m.pose, t) });
      }
      else
        for (std::size_t k = 0; k < m.px.size(); ++k)
        {
          const Vector2d d = refProject(K, t * m.pts[k]) - m.px[k];
          r.insert(r.end(), { d.x(), d.y() });
        }
    }
    if (!blockFixed(0))
      for (int i = 0; i < x.cam.size(); ++i)
        r.push_back(x.cam(i) / sCam);
    if (!blockFixed(1))
      for (int i = 0; i < x.tgt.size(); ++i)
        r.push_back(x.tgt(i) / sTgt);
    return Eigen::Map<VectorXd>(r.data(), long(r.size()));
  }
  MatrixXd jacobian(const Vars& x) const
  {
    const auto f = freeVars();
    const VectorXd x0 = x.flat();
    const int rows = int(residuals(x).size());
    MatrixXd J(rows, std::count(f.begin(), f.end(), true));
    int c = 0;
    for (int i = 0; i < x0.size(); ++i)
    {
      if (!f[i])
        continue;
      Vars a = x, b = x;
      VectorXd xa = x0, xb = x0;
      const double h = 1e-6;
      xa[i] += h;
      xb[i] -= h;
      a.set(xa);
      b.set(xb);
      J.col(c++) = (residuals(a) - residuals(b)) / (2 * h);
    }
    return J;
  }
};
Chain anyChain(Case& c, int n, const std::string& prefix)
{
  Chain r;
  for (int i = 0; i < n; ++i)
  {
    Link l;
    l.p << c.r(-0.5, 0.5), (c.b() ? M_PI / 2 * c.i(0, 3) : c.r(-3, 3)), c.r(-0.5, 0.5), (c.b() ? M_PI / 2 * c.i(0, 3) : c.r(-3, 3));
    l.linear = c.b(1, 5);
    l.name = prefix + std::to_string(i);
    r.links.push_back(l);
  }
  if (c.b())
    r.base = anyIso(c, 0.5);
  return r;
}
// rotation vectors shorter than pi, so that they are unique
Vector3d anyAA(Case& c)
{
  const int k = c.i(0, 2);
  return k == 0 ? Vector3d(Vector3d::Zero()) : k == 1 ? Vector3d(dir(c) * c.r(0, 2.5)) : Vector3d(Vector3d::Unit(c.i(0, 2)) * (M_PI / 2));
}
VectorXd around(Case& c, const VectorXd& q, double s)
{
  VectorXd r = q;
  for (int i = 0; i < r.size(); ++i)
    r[i] += c.r(-s, s);
  return r;
}
Kin generate(Case& c, bool six, double noise, bool loosePrior)
{
  Kin k;
  k.six = six;
  const int na = c.i(0, 5), nb = c.i(na == 0 ? 1 : 0, 2);
  k.cam = anyChain(c, na, "cam_j");
  k.tgt = anyChain(c, nb, "tgt_j");
  k.K = anyIntr(c);
  k.start.cam = MatrixXd::Zero(na, 4);
  k.start.tgt = MatrixXd::Zero(nb, 4);
  for (int b = 0; b < 4; ++b)
    k.start.v[b] = b % 2 ? anyAA(c) : vec(c, 0.3);
  // the base of the target chain is put where the camera sees the target at the middle joint values
  VectorXd qa0(na), qb0(nb);
  for (int i = 0; i < na; ++i)
    qa0[i] = c.r(-2, 2);
  for (int i = 0; i < nb; ++i)
    qb0[i] = c.r(-2, 2);
  const double dist = c.r(0.6, 1.5);
  const Isometry3d see = iso(expSO3(Vector3d(M_PI, 0, 0)) * expSO3(dir(c) * c.r(0, 0.6)), Vector3d(c.r(-0.1, 0.1), c.r(-0.1, 0.1), dist));
  const Isometry3d base = k.cam.fk(qa0, k.start.cam) * k.start.pose(0) * see * (k.tgt.fk(qb0, k.start.tgt) * k.start.pose(1)).inverse();
  k.start.v[4] = base.translation();
  {
    const Eigen::AngleAxisd aa(base.linear());
    k.start.v[5] = aa.angle() * aa.axis();
    if (aa.angle() > M_PI - 0.1)
      c.discard();
  }
  const auto bs = k.blockSizes();
  for (int b = 0; b < 8; ++b)
    switch (c.i(0, 3))
    {
      case 0:
        break;
      case 1:
        for (int i = 0; i < bs[b]; ++i)
          if (c.b(1, 3))
            k.mask[b].push_back(i);
        if (c.b(1, 4))
          std::reverse(k.mask[b].begin(), k.mask[b].end());
        if (c.b(1, 4) && !k.mask[b].empty())
          k.mask[b].push_back(k.mask[b][0]);
        break;
      case 2:
        for (int i = 0; i < bs[b]; ++i)
          k.mask[b].push_back(i);
        break;
      default:
        if (bs[b])
          k.mask[b].push_back(c.i(0, bs[b] - 1));
    }
  k.sCam = loosePrior ? 1e4 : c.logr(1e-4, 1e-1);
  k.sTgt = loosePrior ? 1e4 : c.logr(1e-4, 1e-1);
  k.weight = c.b() ? 100.0 : c.logr(0.1, 200);
  // the true values differ from the starting ones in the free variables only
  const auto f = k.freeVars();
  if (std::count(f.begin(), f.end(), true) == 0)
    c.discard();
  k.truth = k.start;
  VectorXd x = k.start.flat();
  const double off = c.logr(1e-4, 3e-3), mv = c.logr(1e-3, 2e-2);
  for (int i = 0; i < x.size(); ++i)
    if (f[i])
      x[i] += (i < bs[0] + bs[1]) ? c.r(-off, off) : c.r(-mv, mv);
  k.truth.set(x);
  const int nm = six ? c.i(12, 30) : c.i(4, 8);
  std::vector<Vector3d> pts;
  const int side = c.i(2, 4);
  for (int i = 0; i < side * side; ++i)
    pts.push_back(Vector3d(0.05 * (i % side) - 0.07, 0.05 * (i / side) - 0.07, c.b() ? 0 : c.r(-0.05, 0.05)));
  for (int m = 0; m < nm; ++m)
  {
    Meas q;
    for (int tries = 0;; ++tries)
    {
      const double s = six ? 1.0 : 0.35 / (1 + tries);
      q.qa = around(c, qa0, s);
      q.qb = around(c, qb0, s);
      if (six)
        break;
      bool ok = true;
      for (const Vars* v : { &k.start, &k.truth })
        for (const Vector3d& p : pts)
        {
          const Vector3d z = k.camToTarget(*v, q) * p;
          ok = ok && z.z() > 0.3 && z.head<2>().norm() < 1.5 * z.z();
        }
      if (ok)
        break;
      if (tries > 6)
        c.discard();
    }
    const Isometry3d t = k.camToTarget(k.truth, q);
    if (six)
      q.pose = iso(t.linear() * expSO3(noise * vec(c, 1e-2)), t.translation() + noise * vec(c, 1e-2));
    else
      for (const Vector3d& p : pts)
      {
        if (c.b(1, 8))
          continue;
        q.pts.push_back(p);
        q.px.push_back(refProject(k.K, t * p) + noise * Vector2d(c.r(-1, 1), c.r(-1, 1)));
      }
    k.meas.push_back(q);
  }
  if (k.dataResiduals() == 0)
    c.discard();
  std::ostringstream o;
  o << na << "+" << nb << " joints, " << nm << " measurements, " << std::count(f.begin(), f.end(), true) << " of " << f.size() << " variables free";
  c.note("problem", o.str());
  c.note("start", k.start.flat().transpose());
  c.note("truth", k.truth.flat().transpose());
  c.label(na == 0 ? "fixed camera" : nb == 0 ? "fixed target" : "both moving");
  return k;
}
template <class P>
void fill(const Kin& k, P& p)
{
  p.camera_mount_to_camera_guess = k.start.pose(0);
  p.target_mount_to_target_guess = k.start.pose(1);
  p.camera_base_to_target_base_guess = k.start.pose(2);
  p.mask = k.mask;
  p.camera_chain_offset_stdev = k.sCam;
  p.target_chain_offset_stdev = k.sTgt;
}
void quiet()
{
  static bool done = false;
  if (done)
    return;
  done = true;
  const int fd = open("/dev/null", O_WRONLY);
  dup2(fd, 1);
  close(fd);
}
KinematicCalibrationResult solve(const Kin& k)
{
  quiet();
  if (k.six)
  {
    KinematicCalibrationProblemPose6D p(k.cam.make(), k.tgt.make());
    fill(k, p);
    for (const Meas& m : k.meas)
    {
      KinematicMeasurement q;
      q.camera_to_target = m.pose;
      q.camera_chain_joints = m.qa;
      q.target_chain_joints = m.qb;
      p.observations.push_back(q);
    }
    ceres::Solver::Options o;
    o.max_num_iterations = 80;
    o.function_tolerance = 1e-12;
    o.parameter_tolerance = 1e-13;
    o.gradient_tolerance = 1e-14;
    o.logging_type = ceres::SILENT;
    return optimize(p, k.weight, o);
  }
  KinematicCalibrationProblem2D3D p(k.cam.make(), k.tgt.make());
  fill(k, p);
  p.intr = k.K;
  for (const Meas& m : k.meas)
  {
    KinObservation2D3D q;
    q.camera_chain_joints = m.qa;
    q.target_chain_joints = m.qb;
    for (std::size_t i = 0; i < m.px.size(); ++i)
      q.correspondence_set.emplace_back(m.px[i], m.pts[i]);
    p.observations.push_back(q);
  }
  return optimize(p);
}
Vars resultVars(Case& c, const Kin& k, const KinematicCalibrationResult& r)
{
  Vars x;
  c.check(r.camera_chain_dh_offsets.rows() == long(k.cam.links.size()) && r.target_chain_dh_offsets.rows() == long(k.tgt.links.size()),
          "the returned offsets do not have one row per joint");
  x.cam = r.camera_chain_dh_offsets;
  x.tgt = r.target_chain_dh_offsets;
  const Isometry3d* t[3] = { &r.camera_mount_to_camera, &r.target_mount_to_target, &r.camera_base_to_target_base };
  for (int i = 0; i < 3; ++i)
  {
    properRot(c, *t[i], "returned transform");
    x.v[2 * i] = t[i]->translation();
    const Eigen::AngleAxisd aa(t[i]->linear());
    x.v[2 * i + 1] = aa.angle() * aa.axis();
  }
  return x;
}
std::vector<std::string> labels(const Kin& k)
{
  std::vector<std::string> l;
  const char* dh[4] = { "_d", "_theta", "_r", "_alpha" };
  for (const Chain* ch : { &k.cam, &k.tgt })
    for (int p = 0; p < 4; ++p)
      for (const Link& j : ch->links)
        l.push_back(j.name + dh[p]);
  for (const char* t : { "camera_mount_to_camera", "target_mount_to_target", "camera_base_to_target" })
    for (const char* a : { "_x", "_y", "_z", "_rx", "_ry", "_rz" })
      l.push_back(std::string(t) + a);
  return l;
}
void calibrate(Case& c, bool six, double noise, bool loose)
{
  const Kin k = generate(c, six, noise, loose);
  const auto f = k.freeVars();
  c.nontrivial();
  KinematicCalibrationResult r;
  try
  {
    r = solve(k);
  }
  catch (const std::exception& e)
  {
    c.fail(std::string("refused a valid problem: ") + e.what());
  }
  const Vars x = resultVars(c, k, r);
  const VectorXd xs = x.flat(), x0 = k.start.flat();
  c.note("result", xs.transpose());
  const int offs = int(x.cam.size() + x.tgt.size());
  for (int i = 0; i < xs.size(); ++i)
    if (!f[i])
    {
      const bool rot = i >= offs && ((i - offs) / 3) % 2 == 1;
      double got = xs[i];
      if (rot)
      {
        // the result is a transform, which gives its rotation vector only up to full turns about its axis
        const Vector3d w = xs.segment<3>(offs + (i - offs) / 3 * 3);
        const double a = w.norm();
        if (a > 1e-9)
          for (int n = -3; n <= 3; ++n)
          {
            const double alt = xs[i] * ((a + 2 * M_PI * n) / a);
            if (std::abs(alt - x0[i]) < std::abs(got - x0[i]))
            {
              got = alt;
              c.label("rotation wrapped");
            }
          }
      }
      c.near(got, x0[i], rot ? 1e-6 : 0, "masked variable '" + labels(k)[i] + "' changed");
    }
  const VectorXd rs = k.residuals(x), r0 = k.residuals(k.start), rt = k.residuals(k.truth);
  const double n = double(rs.size()), cs = 0.5 * rs.squaredNorm(), c0 = 0.5 * r0.squaredNorm(), ct = 0.5 * rt.squaredNorm();
  c.near(r.initial_cost_per_obs, c0 / n, 1e-9 * c0 / n + 1e-12, "reported initial cost");
  c.near(r.final_cost_per_obs, cs / n, 1e-5 * cs / n + 1e-9 * c0 / n + 1e-12, "reported final cost");
  c.check(cs <= c0 * (1 + 1e-9) + 1e-12, "final cost is above the initial cost");
  // The offsets that explain the data at the cost of the true ones are within reach
  // (the single angle per pose measurement is a poor model for the solver when all errors share one axis: it may then
  // stop at its iteration limit, which is reported)
  if (r.converged || !six)
    c.le(cs, ct * 1.02 + (!r.converged ? 5e-2 : six ? 2e-2 : 1e-3) * c0 + 1e-9, "the returned calibration explains the measurements worse than the true values");
  if (!r.converged)
    c.label("not converged");
  else
  {
    // predicted gain of one more Gauss-Newton step
    const MatrixXd J = k.jacobian(x);
    VectorXd s = J.colwise().norm();
    for (int i = 0; i < s.size(); ++i)
      s[i] = std::max(s[i], 1e-12);
    const MatrixXd Js = J * s.cwiseInverse().asDiagonal();
    const MatrixXd H = Js.transpose() * Js + 1e-6 * MatrixXd::Identity(Js.cols(), Js.cols());
    const VectorXd g = Js.transpose() * rs;
    const double dec = 0.5 * g.dot(H.ldlt().solve(g));
    if (!six || noise > 0)
      c.le(dec, 1e-2 * cs + 1e-4 * c0 + 1e-9, "the returned calibration is not a local optimum");
  }
  // covariance is named after the free variables
  std::multiset<std::string> want, got;
  const auto l = labels(k);
  for (std::size_t i = 0; i < l.size(); ++i)
    if (f[i])
      want.insert(l[i]);
  for (const auto& s : r.covariance.standard_deviations)
    if (s.names.first.find("placeholder") == std::string::npos)
      got.insert(s.names.first);
  c.check(want == got, "the covariance does not list exactly the variables that were solved for");
  c.check(r.covariance.covariance_matrix.rows() == long(r.covariance.standard_deviations.size()), "size of the covariance matrix");
  const MatrixXd J = k.jacobian(x);
  Eigen::SelfAdjointEigenSolver<MatrixXd> es(J.transpose() * J);
  const double lo = es.eigenvalues()(0), hi = es.eigenvalues()(es.eigenvalues().size() - 1);
  if (lo > 1e-9 * hi && (!six || noise > 0))
  {
    c.label("covariance compared");
    // Standard deviations of a rotation vector depend on which full turn it is at, and the result, being a transform,
    // does not say which one the solver was at: any of them will do, the same one for all values.
    const auto deviations = [&](const VectorXd& at) {
      Vars v = x;
      v.set(at);
      const MatrixXd Ja = k.jacobian(v);
      return VectorXd((Ja.transpose() * Ja).inverse().diagonal().cwiseSqrt());
    };
    const VectorXd base = deviations(xs);
    const auto reported = [&](const std::string& name) {
      for (const auto& s : r.covariance.standard_deviations)
        if (s.names.first == name)
          return s.value;
      return -1.0;
    };
    const auto agrees = [&](double got, double want) { return std::abs(got - want) <= 0.02 * want; };
    std::vector<int> at(l.size(), -1);
    for (std::size_t i = 0, q = 0; i < l.size(); ++i)
      if (f[i])
        at[i] = int(q++);
    const auto all = [&](const VectorXd& d) {
      for (std::size_t i = 0; i < l.size(); ++i)
        if (f[i] && !agrees(reported(l[i]), d[at[i]]))
          return false;
      return true;
    };
    bool ok = all(base);
    for (int turns = 0; turns < 125 && !ok; ++turns)
    {
      VectorXd alt = xs;
      const int n[3] = { turns % 5 - 2, turns / 5 % 5 - 2, turns / 25 - 2 };
      for (int p = 0; p < 3; ++p)
      {
        const Vector3d w = xs.segment<3>(offs + 6 * p + 3);
        if (w.norm() > 1e-9)
          alt.segment<3>(offs + 6 * p + 3) = w * ((w.norm() + 2 * M_PI * n[p]) / w.norm());
      }
      if ((ok = all(deviations(alt))))
        c.label("rotation wrapped");
    }
    for (std::size_t i = 0; i < l.size() && !ok; ++i)
      if (f[i])
        c.near(reported(l[i]), base[at[i]], 0.02 * base[at[i]], "standard deviation of " + l[i]);
  }
}
}  // namespace

PBT(C17, quaternion_plus, "steps that are not zero from any orientation", 20000, 400000)
{
  const Matrix3d R = anyRot(c, "at");
  Eigen::Quaterniond x(R);
  if (c.b())
    x.coeffs() = -x.coeffs();
  const int kind = c.i(0, 3);
  const Vector3d d = kind == 0 ? Vector3d(Vector3d::Zero()) : kind == 1 ? Vector3d(dir(c) * c.logr(1e-12, 1e-3)) : Vector3d(dir(c) * c.r(0, 4));
  c.nontrivial(kind > 0);
  Eigen::Quaterniond y;
  Eigen::Matrix<double, 4, 3> J;
  c17::quaternionPlus(x.coeffs().data(), d.data(), y.coeffs().data(), J.data());
  c.near(y.norm(), 1, 1e-12, "length of the quaternion after the step");
  c.near((y.toRotationMatrix() - expSO3(2 * d) * R).cwiseAbs().maxCoeff(), 0, 1e-12 * (1 + 10 * d.norm()), "the step is not the rotation by twice its vector");
  c.check(J.allFinite(), "derivatives are not finite");
  for (int k = 0; k < 3; ++k)
  {
    const double h = 1e-6;
    const auto at = [&](double s) {
      Vector3d e = d;
      e[k] += s;
      const double n = e.norm();
      Eigen::Quaterniond q;
      q.coeffs() << (n > 0 ? std::sin(n) / n : 1.0) * e, std::cos(n);
      return Eigen::Vector4d((q * x).coeffs());
    };
    c.near((J.col(k) - (at(h) - at(-h)) / (2 * h)).cwiseAbs().maxCoeff(), 0, 1e-6, "derivative of the step by component " + std::to_string(k));
  }
}

PBT(C17, subset, "masks that hold some parameters", 4000, 80000)
{
  const int blocks = c.i(1, 4);
  std::vector<Eigen::ArrayXXd> x, mean, stdev;
  std::map<const double*, std::vector<int>> mask;
  std::vector<std::set<int>> held(blocks);
  for (int b = 0; b < blocks; ++b)
  {
    const int r = c.i(1, 5), k = c.i(1, 4);
    Eigen::ArrayXXd a(r, k), s(r, k), m(r, k);
    for (int i = 0; i < r * k; ++i)
    {
      a(i) = c.r(-5, 5);
      m(i) = c.r(-5, 5);
      s(i) = c.logr(1e-3, 10);
    }
    x.push_back(a);
    mean.push_back(m);
    stdev.push_back(s);
  }
  ceres::Problem p;
  const std::vector<Eigen::ArrayXXd> x0 = x;
  for (int b = 0; b < blocks; ++b)
  {
    ceres::CostFunction* f = c17::prior(mean[b], stdev[b]);
    // the residuals are (value - mean) / stdev
    std::vector<double> res(x[b].size());
    const double* q[1] = { x[b].data() };
    c.check(f->Evaluate(q, res.data(), nullptr), "prior cannot be evaluated");
    for (int i = 0; i < x[b].size(); ++i)
    {
      const double want = (x[b](i) - mean[b](i)) / stdev[b](i);
      c.near(res[i], want, 1e-12 * (1 + std::abs(want)), "residual of the prior");
    }
    p.AddResidualBlock(f, nullptr, x[b].data());
  }
  bool bad = false;
  for (int b = 0; b < blocks; ++b)
  {
    const int n = int(x[b].size());
    const int kind = c.i(0, 4);
    if (kind == 0)
      continue;  // not mentioned
    std::vector<int>& m = mask[x[b].data()];
    if (kind == 1)
      continue;  // nothing held
    for (int i = 0; i < n; ++i)
      if (kind == 3 || c.b())
        m.push_back(i);
    if (c.b(1, 3) && !m.empty())
      m.push_back(m[c.i(0, int(m.size()) - 1)]);
    const auto pm = c.perm(m.size());
    std::vector<int> sh(m.size());
    for (std::size_t i = 0; i < m.size(); ++i)
      sh[i] = m[pm[i]];
    m = sh;
    held[b] = std::set<int>(m.begin(), m.end());
    if (kind == 4 && c.b(1, 2))
    {
      m.insert(m.begin() + c.i(0, int(m.size())), c.b() ? n + c.i(0, 10) : -1 - c.i(0, 3));
      bad = true;
    }
    c.nontrivial(!held[b].empty());
  }
  bool threw = false;
  try
  {
    c17::subset(p, mask);
  }
  catch (const OptimizationException&)
  {
    threw = true;
  }
  c.label(bad ? "index out of range" : "valid");
  c.check(threw == bad, bad ? "an index out of range was accepted" : "a valid mask was refused");
  if (bad)
    return;
  ceres::Solver::Options o;
  o.logging_type = ceres::SILENT;
  o.function_tolerance = 0;  // a held parameter may dominate the cost
  ceres::Solver::Summary s;
  ceres::Solve(o, &p, &s);
  for (int b = 0; b < blocks; ++b)
    for (int i = 0; i < x[b].size(); ++i)
      if (held[b].count(i))
        c.check(x[b](i) == x0[b](i), "a held parameter changed");
      else
        c.near(x[b](i), mean[b](i), 1e-2 * std::abs(x0[b](i) - mean[b](i)) + 1e-2 * stdev[b](i), "a free parameter was not solved for");
}

static void costFunction(Case& c, bool six)
{
  Kin k = generate(c, six, 1, false);
  const DHChain a = k.cam.make(), b = k.tgt.make();
  const Meas& m = k.meas[0];
  Vars x = k.start;
  if (c.b())
    x = k.truth;
  ceres::CostFunction* f;
  VectorXd want;
  Kin one = k;
  one.meas = { m };
  if (!six && m.px.empty())
    c.discard();
  if (six)
  {
    KinematicMeasurement q;
    q.camera_to_target = m.pose;
    q.camera_chain_joints = m.qa;
    q.target_chain_joints = m.qb;
    f = c17::cost6d(q, a, b, k.weight);
  }
  else
  {
    const int i = c.i(0, int(m.px.size()) - 1);
    one.meas[0].px = { m.px[i] };
    one.meas[0].pts = { m.pts[i] };
    f = c17::cost2d(m.px[i], m.pts[i], k.K, a, b, m.qa, m.qb);
  }
  const int nr = six ? 4 : 2;
  want = one.residuals(x).head(nr);
  std::vector<double> ca(std::max<long>(4, x.cam.size()), 0.0), ta(std::max<long>(4, x.tgt.size()), 0.0);
  std::copy(x.cam.data(), x.cam.data() + x.cam.size(), ca.begin());
  std::copy(x.tgt.data(), x.tgt.data() + x.tgt.size(), ta.begin());
  const double* q[8] = { ca.data(), ta.data(), x.v[0].data(), x.v[1].data(), x.v[2].data(), x.v[3].data(), x.v[4].data(), x.v[5].data() };
  std::vector<std::vector<double>> jac(8);
  double* jp[8];
  for (int i = 0; i < 8; ++i)
  {
    jac[i].resize(nr * (i == 0 ? ca.size() : i == 1 ? ta.size() : 3));
    jp[i] = jac[i].data();
  }
  std::vector<double> res(nr);
  const bool ok = f->Evaluate(q, res.data(), jp);
  delete f;
  c.check(ok, "cost function failed");
  c.nontrivial();
  const double sc = six ? 10 * (1 + k.weight) : 3000;
  for (int i = 0; i < nr; ++i)
    c.near(res[i], want[i], 1e-9 * sc, "residual " + std::to_string(i));
  if (six && want[3] / k.weight < 1e-3)
    return;
  for (auto& v : one.mask)
    v.clear();
  const MatrixXd J = one.jacobian(x).topRows(nr);
  int col = 0;
  for (int b2 = 0; b2 < 8; ++b2)
  {
    const int n = one.blockSizes()[b2];
    for (int i = 0; i < n; ++i, ++col)
      for (int r = 0; r < nr; ++r)
        c.near(jac[b2][r * (b2 == 0 ? ca.size() : b2 == 1 ? ta.size() : 3) + i], J(r, col), 1e-4 * sc * (six && r == 3 ? 10 : 1) * 0.1,
               "derivative of residual " + std::to_string(r) + " by " + labels(one)[col]);
  }
}
PBT(C17, cost2d, "random chains, transforms and measurements; value and all derivatives", 3000, 150000) { costFunction(c, false); }
PBT(C17, cost6d, "random chains, transforms and measurements; value and all derivatives", 2500, 100000) { costFunction(c, true); }
PBT(C17, exact2d, "noise-free images, masks, prior of small weight", 220, 9000) { calibrate(c, false, 0, true); }
PBT(C17, exact6d, "noise-free pose measurements, masks, prior of small weight", 220, 9000) { calibrate(c, true, 0, true); }
PBT(C17, noisy2d, "noisy images, masks, prior of any weight", 320, 12000) { calibrate(c, false, 1, false); }
PBT(C17, noisy6d, "noisy pose measurements, masks, prior of any weight", 320, 12000) { calibrate(c, true, 0.3, false); }

// The same measurements in another order or in other frames, and the same problem again
PBT(C09, kinematic, "kinematic calibrations with noisy measurements of either kind", 160, 6000) { calibrate(c, c.b(), c.pick({ 1.0, 0.3 }), c.b()); }
PBT(C14, kinematic, "kinematic calibrations with noisy measurements of either kind", 160, 6000) { calibrate(c, c.b(), c.pick({ 1.0, 0.3 }), false); }
PBT(C10, kinematic, "kinematic calibrations with reordered measurements, other frames, and again after other problems", 220, 8000)
{
  const Kin k = generate(c, c.b(), 0.5, false);
  const auto a = solve(k);
  if (!a.converged)
    c.discard();
  const Vars xa = resultVars(c, k, a);
  const int what = c.i(0, 2);
  Kin p = k;
  Isometry3d W = Isometry3d::Identity(), G = Isometry3d::Identity();
  if (what == 0)
  {
    c.label("reordered");
    const auto q = c.perm(k.meas.size());
    for (std::size_t i = 0; i < q.size(); ++i)
    {
      p.meas[i] = k.meas[q[i]];
      const auto w = c.perm(p.meas[i].px.size());
      for (std::size_t j = 0; j < w.size(); ++j)
      {
        p.meas[i].px[j] = k.meas[q[i]].px[w[j]];
        p.meas[i].pts[j] = k.meas[q[i]].pts[w[j]];
      }
      if (q[i] != i)
        c.nontrivial();
    }
  }
  else if (what == 1)
  {
    c.label("frames");
    // another base frame needs the base transform as a whole free or held; another target frame the same of its mount
    const auto whole = [&](int b) { return (k.mask[b].empty() && k.mask[b + 1].empty()) || (k.blockFixed(b) && k.blockFixed(b + 1)); };
    const auto put = [&](Kin& q, int n, const Isometry3d& t) {
      q.start.v[2 * n] = t.translation();
      const Eigen::AngleAxisd aa(t.linear());
      q.start.v[2 * n + 1] = aa.angle() * aa.axis();
    };
    if (whole(6) && c.b(2, 3))
    {
      W = anyIso(c, 1.0);
      p.cam.base = W * k.cam.base;
      put(p, 2, W * k.start.pose(2));
      c.nontrivial();
    }
    if (whole(4) && c.b(2, 3))
    {
      G = anyIso(c, 0.3);
      put(p, 1, k.start.pose(1) * G);
      for (auto& m : p.meas)
      {
        for (auto& q : m.pts)
          q = G.inverse() * q;
        m.pose = m.pose * G;
      }
      // a pose measurement weighs the translation of the target origin, which is another point then
      if (k.six)
        c.discard();
      c.nontrivial();
    }
  }
  else
  {
    c.label("repeated");
    const int n = c.i(0, 2);
    for (int i = 0; i < n; ++i)
      try
      {
        solve(generate(c, c.b(), 0.5, false));
      }
      catch (const OptimizationException&)
      {
      }
    c.nontrivial();
  }
  const auto b = solve(p);
  Vars xb = resultVars(c, p, b);
  const double n = double(k.residuals(xa).size());
  if (what == 2)
  {
    c.check(a.converged == b.converged, "solving again gives another kind of result");
    c.near((xa.flat() - xb.flat()).cwiseAbs().maxCoeff(), 0, 1e-9, "solving again gives another calibration");
    c.near(b.initial_cost_per_obs, a.initial_cost_per_obs, 1e-12 * a.initial_cost_per_obs, "initial cost of the second call");
    c.near(b.final_cost_per_obs, a.final_cost_per_obs, 1e-9 * a.final_cost_per_obs, "final cost of the second call");
    c.check(a.covariance.covariance_matrix.rows() == b.covariance.covariance_matrix.rows(), "covariance size of the second call");
    return;
  }
  if (!b.converged)
    c.discard();
  c.near(b.initial_cost_per_obs, a.initial_cost_per_obs, 1e-6 * a.initial_cost_per_obs + 1e-12, "initial cost of the changed problem");
  const double start = 0.5 * k.residuals(k.start).squaredNorm();
  const VectorXd ra = k.residuals(xa), rb = p.residuals(xb);
  c.near(b.final_cost_per_obs, a.final_cost_per_obs, 1e-2 * a.final_cost_per_obs + (k.six ? 2e-2 : 1e-3) * start / n + 1e-12, "final cost of the changed problem");
  if (what == 1)
    c.le(0.5 * (ra - rb).squaredNorm(), 2e-2 * 0.5 * ra.squaredNorm() + (k.six ? 2e-2 : 1e-3) * start + 1e-9, "the calibration of the changed problem predicts other measurements");
  else
    c.le(0.5 * (ra - k.residuals(xb)).squaredNorm(), 2e-2 * 0.5 * ra.squaredNorm() + (k.six ? 2e-2 : 1e-3) * start + 1e-9, "the calibration of the reordered measurements predicts other measurements");
}
