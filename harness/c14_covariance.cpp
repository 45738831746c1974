#include "solver_checks.h"
#include <ceres/ceres.h>
#include <rct_optimizations/circle_fit.h>
#include <rct_optimizations/covariance_analysis.h>
using namespace scene;
using namespace rct_optimizations;

// --- solvers -------------------------------------------------------------------------------------------------------
static Vector3d logSO3(const Matrix3d& r)
{
  const Eigen::AngleAxisd a(r);
  return a.angle() * a.axis();
}
// covariance over parameters (rx ry rz x y z) of every pose; inv[k]: parameters are those of the inverse transform;
// wrap[k]: rotation vector taken the other way round
static bool infoInverse(const Scene& s, const Poses& sol, const std::vector<bool>& inv, const std::vector<bool>& wrap, MatrixXd& out)
{
  const int n = int(sol.size());
  VectorXd x(6 * n);
  for (int k = 0; k < n; ++k)
  {
    const Isometry3d p = inv[k] ? sol[k].inverse() : sol[k];
    Vector3d r = logSO3(p.linear());
    if (wrap[k] && r.norm() > 1e-6)
      r *= 1 - 2 * M_PI / r.norm();
    x.segment<3>(6 * k) = r;
    x.segment<3>(6 * k + 3) = p.translation();
  }
  auto f = [&](const VectorXd& v) {
    Poses p;
    for (int k = 0; k < n; ++k)
    {
      const Isometry3d q = iso(expSO3(v.segment<3>(6 * k)), v.segment<3>(6 * k + 3));
      p.push_back(inv[k] ? q.inverse() : q);
    }
    return residuals(s, p);
  };
  MatrixXd J(s.nRes(), 6 * n);
  for (int i = 0; i < 6 * n; ++i)
  {
    const double h = (i % 6 < 3 ? 1e-5 : 1e-5 * s.len);
    VectorXd a = x, b = x, a2 = x, b2 = x;
    a(i) += h;
    b(i) -= h;
    a2(i) += 2 * h;
    b2(i) -= 2 * h;
    J.col(i) = (8 * (f(a) - f(b)) - (f(a2) - f(b2))) / (12 * h);
  }
  out = invInfo(J);
  return out.allFinite();
}
static double relDiff(const MatrixXd& a, const MatrixXd& b)
{
  double m = 0;
  for (int i = 0; i < a.rows(); ++i)
    for (int j = 0; j < a.cols(); ++j)
      m = std::max(m, std::abs(a(i, j) - b(i, j)) / std::sqrt(b(i, i) * b(j, j)));
  return m;
}
static void solverCov(Case& c, std::initializer_list<Kind> kinds)
{
  GenOpt o;
  o.noise = c.pick({ 0.5, 0.0 });
  o.maxViews = 5;
  o.exactGuess = true;
  Scene s = gen(c, c.pick(kinds), o);
  if (c.b())
  {
    s.names = { "alpha" + std::to_string(c.i(0, 9)), "beta" };
    c.label("customLabels");
  }
  describe(c, s);
  if (condOf(s) > 400)
    c.discard();
  c.nontrivial();
  const Out r = solve(s);
  c.check(r.converged, "did not converge");
  const int n = int(r.poses.size()), N = 6 * n;
  const char* axis[] = { "rx", "ry", "rz", "x", "y", "z" };
  const MatrixXd& C = r.cov.covariance_matrix;
  c.check(C.rows() == N && C.cols() == N && C.allFinite(), "size of the covariance matrix");
  c.check(int(r.cov.standard_deviations.size()) == N, "number of labels");
  std::map<std::string, int> at;
  for (int k = 0; k < n; ++k)
    for (int a = 0; a < 6; ++a)
      at[r.prefix[k] + "_" + axis[a]] = 6 * k + a;
  // rows of C are in the order of the standard deviations
  std::vector<int> row;
  std::set<int> seen;
  for (auto& q : r.cov.standard_deviations)
  {
    c.check(at.count(q.names.first) == 1, "unexpected label " + q.names.first);
    row.push_back(at[q.names.first]);
    c.check(seen.insert(row.back()).second, "label used twice: " + q.names.first);
  }
  MatrixXd got(N, N);
  for (int i = 0; i < N; ++i)
  {
    c.near(r.cov.standard_deviations[i].value, std::sqrt(C(i, i)), 1e-9 * std::sqrt(C(i, i)), "standard deviation of " + r.cov.standard_deviations[i].names.first);
    for (int j = 0; j < N; ++j)
      got(row[i], row[j]) = C(i, j);
  }
  // The camera blocks of hand-eye and multi-camera calibration hold the covariance of the inverse of the transform they
  // are named after (known finding); exactly that reading is accepted for them as well as the right one.
  std::vector<bool> cam(n, false);
  if (s.kind == HE2 || s.kind == HE3)
    cam[0] = true;
  if (s.kind == MSC)
    for (int k = 0; k + 1 < n; ++k)
      cam[k] = true;
  double best = 1e300;
  for (int v = 0; v < 2 && best > 2e-2; ++v)
  {
    std::vector<bool> inv = cam;
    if (v)
      inv.assign(n, false);
    // near half turns the internal rotation vector may be on either side
    std::vector<int> amb;
    for (int k = 0; k < n; ++k)
      if (logSO3(r.poses[k].linear()).norm() > 2.6)
        amb.push_back(k);
    for (int m = 0; m < (1 << amb.size()) && best > 2e-2; ++m)
    {
      std::vector<bool> wrap(n, false);
      for (std::size_t q = 0; q < amb.size(); ++q)
        wrap[amb[q]] = m >> q & 1;
      MatrixXd ref;
      if (infoInverse(s, r.poses, inv, wrap, ref))
        best = std::min(best, relDiff(got, ref));
    }
  }
  c.le(best, 2e-2, "covariance differs from the inverse information matrix (relative to the standard deviations)");
}
PBT(C14, pnp, "single-view estimation, well-conditioned", 2500, 60000) { solverCov(c, { PNP2, PNP3 }); }
PBT(C14, hand_eye, "hand-eye calibration, well-conditioned", 1000, 20000) { solverCov(c, { HE2, HE3 }); }
PBT(C14, multi_static, "joint multi-camera calibration, well-conditioned", 500, 10000) { solverCov(c, { MSC }); }
PBT(C14, circle, "circle fit of noisy points", 6000, 150000)
{
  CircleFitProblem p;
  const int n = c.i(4, 20);
  const double R = c.logr(0.2, 20);
  const Vector2d ctr(R * c.r(-3, 3), R * c.r(-3, 3));
  for (int k = 0; k < n; ++k)
  {
    const double a = 2 * M_PI * k / n, q = R * (1 + c.r(-0.05, 0.05));
    p.observations.push_back(ctr + q * Vector2d(std::cos(a), std::sin(a)));
  }
  p.x_center_initial = ctr.x() + 0.1 * R;
  p.y_center_initial = ctr.y();
  p.radius_initial = 1.1 * R;
  c.note("R", R);
  c.note("n", n);
  c.nontrivial(std::abs(R - 1) > 0.05);
  const auto r = optimize(p);
  MatrixXd J(n, 3);
  for (int k = 0; k < n; ++k)
    J.row(k) << 2 * (p.observations[k].x() - r.x_center), 2 * (p.observations[k].y() - r.y_center), 2 * r.radius;
  const MatrixXd ref = (J.transpose() * J).inverse();
  c.check(r.covariance.covariance_matrix.rows() == 3 && r.covariance.covariance_matrix.cols() == 3, "size of the covariance matrix");
  c.le(relDiff(r.covariance.covariance_matrix, ref), 1e-3, "covariance of the circle differs from the inverse information matrix");
  c.check(r.covariance.standard_deviations.size() == 3, "number of labels");
  const char* nm[] = { "x", "y", "r" };
  for (int k = 0; k < 3; ++k)
  {
    c.check(r.covariance.standard_deviations[k].names.first == nm[k], "label order");
    c.near(r.covariance.standard_deviations[k].value, std::sqrt(ref(k, k)), 1e-3 * std::sqrt(ref(k, k)), "standard deviation");
  }
}

// --- general problems -----------------------------------------------------------------------------------------------
// residual  sum_b A_b p_b + q * |p|^2 - b
struct Lin : ceres::CostFunction
{
  std::vector<MatrixXd> A;
  VectorXd quad;
  Lin(std::vector<MatrixXd> a, VectorXd q) : A(std::move(a)), quad(std::move(q))
  {
    set_num_residuals(int(A[0].rows()));
    for (auto& m : A)
      mutable_parameter_block_sizes()->push_back(int(m.cols()));
  }
  bool Evaluate(double const* const* p, double* r, double** J) const override
  {
    Eigen::Map<VectorXd> res(r, A[0].rows());
    res.setZero();
    for (std::size_t b = 0; b < A.size(); ++b)
    {
      Eigen::Map<const VectorXd> x(p[b], A[b].cols());
      res += A[b] * x + quad * x.squaredNorm();
      if (J && J[b])
        Eigen::Map<Eigen::Matrix<double, -1, -1, Eigen::RowMajor>>(J[b], A[b].rows(), A[b].cols()) = A[b] + 2 * quad * x.transpose();
    }
    return true;
  }
};
struct Lsq
{
  std::vector<std::vector<double>> x;  // blocks
  std::vector<int> size, off;
  MatrixXd J;                          // of all blocks at x
  std::vector<std::vector<int>> mask;
  int n = 0;
  ceres::Problem problem;
};
static void make(Case& c, Lsq& l, bool deficient = false)
{
  const int nb = c.i(1, 4);
  for (int b = 0; b < nb; ++b)
  {
    const int k = (nb == 1) ? c.i(2, 5) : c.i(1, 4);
    l.size.push_back(k);
    l.off.push_back(l.n);
    l.n += k;
    std::vector<double> v;
    for (int i = 0; i < k; ++i)
      v.push_back(c.r(-2, 2));
    l.x.push_back(v);
  }
  const int m = l.n + c.i(1, 6);
  std::vector<MatrixXd> A;
  MatrixXd all = MatrixXd::Zero(m, l.n);
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < l.n; ++j)
      all(i, j) = c.r(-1, 1) + (i == j ? 2.0 : 0.0);
  VectorXd q(m);
  for (int i = 0; i < m; ++i)
    q(i) = c.r(-0.2, 0.2);
  if (deficient)
  {
    const int z = c.i(0, l.n - 1);
    all.col(z).setZero();
    q.setZero();
  }
  l.J = all;
  std::vector<double*> ptr;
  for (int b = 0; b < nb; ++b)
  {
    A.push_back(all.middleCols(l.off[b], l.size[b]));
    Eigen::Map<VectorXd> x(l.x[b].data(), l.size[b]);
    l.J.middleCols(l.off[b], l.size[b]) += 2 * q * x.transpose();
    ptr.push_back(l.x[b].data());
  }
  l.problem.AddResidualBlock(new Lin(A, q), nullptr, ptr);
  for (int b = 0; b < nb; ++b)
  {
    std::vector<int> mk;
    for (int i = 0; i < l.size[b]; ++i)
      if (c.b(1, 4))
        mk.push_back(i);
    l.mask.push_back(mk);
  }
  c.note("blocks", nb);
  c.note("params", l.n);
}
// compares a result whose i-th row should be parameter want[i]
static void compare(Case& c, const CovarianceResult& r, const MatrixXd& C, const std::vector<int>& want, const std::vector<std::string>& names)
{
  const int k = int(want.size());
  c.check(r.covariance_matrix.rows() == k && r.covariance_matrix.cols() == k, "size of the covariance matrix");
  c.check(int(r.standard_deviations.size()) == k && int(r.covariances.size()) == k * (k - 1) / 2, "number of labelled values");
  for (int i = 0; i < k; ++i)
  {
    c.check(r.standard_deviations[i].names.first == names[want[i]], "label of row " + std::to_string(i) + " is " + r.standard_deviations[i].names.first + ", expected " + names[want[i]]);
    const double si = std::sqrt(C(want[i], want[i]));
    c.near(r.standard_deviations[i].value, si, 1e-6 * si + 1e-12, "standard deviation of " + names[want[i]]);
    for (int j = 0; j < k; ++j)
      c.near(r.covariance_matrix(i, j), C(want[i], want[j]), 1e-6 * si * std::sqrt(C(want[j], want[j])) + 1e-12, "covariance entry");
  }
}
PBT(C14, least_squares, "several parameter blocks or a mask", 30000, 500000)
{
  Lsq l;
  make(c, l);
  const MatrixXd JtJ = l.J.transpose() * l.J;
  if (Eigen::JacobiSVD<MatrixXd>(l.J).singularValues()(l.n - 1) < 0.05)
    c.discard();
  MatrixXd C = JtJ.inverse();
  const int nb = int(l.x.size());
  // which blocks, in which order
  const int api = c.i(0, 3);
  const bool named = api & 1, sel = api & 2;
  std::vector<int> blocks;
  {
    std::vector<double*> pb;
    l.problem.GetParameterBlocks(&pb);
    for (auto* p : pb)
      for (int b = 0; b < nb; ++b)
        if (l.x[b].data() == p)
          blocks.push_back(b);
  }
  if (sel)
  {
    std::vector<int> q;
    for (auto i : c.perm(nb))
      if (q.empty() || c.b(2, 3))
        q.push_back(int(i));
    blocks = q;
  }
  const bool masked = c.b(2, 3), manifold = masked && c.b();
  std::map<const double*, std::vector<int>> masks;
  std::vector<std::string> names(l.n);
  std::map<const double*, std::vector<std::string>> nm;
  std::vector<const double*> ptr;
  if (manifold)
  {
    // masked parameters are held constant
    c.label("manifold");
    std::vector<int> fr;
    for (int b = 0; b < nb; ++b)
    {
      if (int(l.mask[b].size()) == l.size[b])
        l.mask[b].pop_back();
      if (!l.mask[b].empty())
        l.problem.SetManifold(l.x[b].data(), new ceres::SubsetManifold(l.size[b], l.mask[b]));
      for (int i = 0; i < l.size[b]; ++i)
        if (!std::count(l.mask[b].begin(), l.mask[b].end(), i))
          fr.push_back(l.off[b] + i);
    }
    MatrixXd Jf(l.J.rows(), fr.size());
    for (std::size_t k = 0; k < fr.size(); ++k)
      Jf.col(k) = l.J.col(fr[k]);
    const MatrixXd Cf = (Jf.transpose() * Jf).inverse();
    C.setZero();
    for (std::size_t i = 0; i < fr.size(); ++i)
      for (std::size_t j = 0; j < fr.size(); ++j)
        C(fr[i], fr[j]) = Cf(i, j);
  }
  std::vector<int> want;
  for (std::size_t k = 0; k < blocks.size(); ++k)
  {
    const int b = blocks[k];
    ptr.push_back(l.x[b].data());
    if (masked && (!l.mask[b].empty() || c.b()))
    {
      masks[l.x[b].data()] = l.mask[b];
      if (!manifold)
      {
        auto& mm = masks[l.x[b].data()];
        const auto pr = c.perm(mm.size());
        auto old = mm;
        for (std::size_t q = 0; q < pr.size(); ++q)
          mm[q] = old[pr[q]];
      }
    }
    std::vector<std::string> bn;
    for (int i = 0; i < l.size[b]; ++i)
    {
      std::string s = "block" + std::to_string(k) + "_element" + std::to_string(i);
      if (named)
        s = "p" + std::to_string(b) + "." + std::to_string(i);
      names[l.off[b] + i] = s;
      bn.push_back(s);
      if (!masked || !std::count(l.mask[b].begin(), l.mask[b].end(), i))
        want.push_back(l.off[b] + i);
    }
    nm[l.x[b].data()] = bn;
  }
  c.label(std::string("api:") + (sel ? "selected" : "all") + (named ? "Named" : "Generic"));
  c.note("masked", masked);
  c.nontrivial(nb > 1 || masked);
  CovarianceResult r;
  switch (api)
  {
    case 0:
      r = computeCovariance(l.problem, masks);
      break;
    case 1:
      r = computeCovariance(l.problem, nm, masks);
      break;
    case 2:
      r = computeCovariance(l.problem, ptr, masks);
      break;
    default:
      r = computeCovariance(l.problem, ptr, nm, masks);
  }
  compare(c, r, C, want, names);
}
PBT(C14, refused, "wrong number of label lists or labels, or a singular problem", 10000, 150000)
{
  Lsq l;
  const int what = c.i(0, 3);
  make(c, l, what == 2);
  const int nb = int(l.x.size());
  std::map<const double*, std::vector<std::string>> nm;
  std::vector<const double*> ptr;
  for (int b = 0; b < nb; ++b)
  {
    ptr.push_back(l.x[b].data());
    nm[l.x[b].data()] = std::vector<std::string>(l.size[b], "n");
  }
  const int at = c.i(0, nb - 1);
  double extra = 0;
  if (what == 0)
  {
    // one list too few or too many
    if (c.b())
      nm.erase(l.x[at].data());
    else
      nm[&extra] = { "e" };
  }
  else if (what == 1)
  {
    auto& v = nm[l.x[at].data()];
    v.resize(c.b() ? v.size() + 1 + c.i(0, 2) : c.i(0, int(v.size()) - 1), "m");
  }
  else if (what == 3)
  {
    // parameters that are not part of the problem
    ptr.insert(ptr.begin() + at, &extra);
    nm[&extra] = { "e" };
  }
  c.label(what == 0 ? "blocks" : what == 1 ? "labels" : what == 2 ? "singular" : "foreign");
  c.nontrivial();
  bool ok = false;
  try
  {
    if (what == 3 || c.b())
      computeCovariance(l.problem, ptr, nm);
    else
      computeCovariance(l.problem, nm);
  }
  catch (const CovarianceException&)
  {
    ok = true;
  }
  c.check(ok, "not refused with a covariance error");
}
