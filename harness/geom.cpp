#include "geom.h"
namespace geom
{
double cost(const ResidualFn& f, const Poses& p) { return 0.5 * f(p).squaredNorm(); }
MatrixXd numJac(const ResidualFn& f, const Poses& p, double hr, double ht)
{
  const VectorXd r0 = f(p);
  MatrixXd J(r0.size(), 6 * p.size());
  for (std::size_t k = 0; k < p.size(); ++k)
    for (int d = 0; d < 6; ++d)
    {
      const double h = d < 3 ? hr : ht;
      Vec6 e = Vec6::Zero();
      e[d] = h;
      Poses a = p, b = p;
      a[k] = plus(p[k], e);
      b[k] = plus(p[k], -e);
      J.col(6 * k + d) = (f(a) - f(b)) / (2 * h);
    }
  return J;
}
// cost decrease that one Gauss-Newton step predicts (0 at a stationary point); columns are scaled, rank revealed
double gnDecrement(const ResidualFn& f, const Poses& p, double ht, VectorXd* step)
{
  MatrixXd J = numJac(f, p, 1e-6, ht);
  const VectorXd r = f(p);
  VectorXd s = J.colwise().norm();
  for (int k = 0; k < s.size(); ++k)
    if (s[k] < 1e-300)
      s[k] = 1;
  MatrixXd Js = J * s.cwiseInverse().asDiagonal();
  const MatrixXd H = Js.transpose() * Js;
  const VectorXd g = Js.transpose() * r;
  Eigen::SelfAdjointEigenSolver<MatrixXd> es(H);
  const VectorXd gv = es.eigenvectors().transpose() * g;
  VectorXd dv = VectorXd::Zero(gv.size());
  double dec = 0;
  for (int k = 0; k < gv.size(); ++k)
    if (es.eigenvalues()(k) > 1e-11 * es.eigenvalues()(gv.size() - 1))
    {
      dv[k] = gv[k] / es.eigenvalues()(k);
      dec += 0.5 * gv[k] * dv[k];
    }
  if (step)
    *step = -((es.eigenvectors() * dv).cwiseQuotient(s));
  return dec;
}
// Levenberg-Marquardt with numerical Jacobians
double refLM(const ResidualFn& f, Poses& p, int iters)
{
  double lambda = 1e-4, c0 = cost(f, p);
  for (int it = 0; it < iters; ++it)
  {
    MatrixXd J = numJac(f, p);
    const VectorXd r = f(p);
    VectorXd s = J.colwise().norm();
    for (int k = 0; k < s.size(); ++k)
      if (s[k] < 1e-300)
        s[k] = 1;
    MatrixXd Js = J * s.cwiseInverse().asDiagonal();
    MatrixXd H = Js.transpose() * Js;
    VectorXd g = Js.transpose() * r;
    bool ok = false;
    for (int tr = 0; tr < 8 && !ok; ++tr)
    {
      MatrixXd A = H;
      A.diagonal().array() += lambda;
      VectorXd d = -A.ldlt().solve(g).cwiseQuotient(s);
      Poses q = p;
      for (std::size_t k = 0; k < p.size(); ++k)
        q[k] = plus(p[k], d.segment<6>(6 * k));
      const double c1 = cost(f, q);
      if (c1 <= c0)
      {
        const bool done = (c0 - c1) <= 1e-12 * c0;
        p = q;
        c0 = c1;
        lambda = std::max(1e-12, lambda * 0.1);
        ok = true;
        if (done)
          return c0;
      }
      else
        lambda *= 10;
    }
    if (!ok)
      break;
  }
  return c0;
}


double decrease(const ResidualFn& f, const Poses& p, double floor, double ht)
{
  const double d = gnDecrement(f, p, ht);
  if (d <= floor)
    return d;
  Poses q = p;
  return std::min(d, cost(f, p) - refLM(f, q, 30));
}
double scaledCond(const MatrixXd& J)
{
  VectorXd s = J.colwise().norm();
  for (int k = 0; k < s.size(); ++k)
    if (s[k] < 1e-300)
      return 1e300;
  // via the eigenvalues of the scaled normal matrix (accurate enough up to 1e7)
  MatrixXd Js = J * s.cwiseInverse().asDiagonal();
  Eigen::SelfAdjointEigenSolver<MatrixXd> es(Js.transpose() * Js, Eigen::EigenvaluesOnly);
  const double lo = es.eigenvalues()(0), hi = es.eigenvalues()(s.size() - 1);
  return lo <= hi * 1e-15 ? 1e300 : std::sqrt(hi / lo);
}
MatrixXd invInfo(const MatrixXd& J)
{
  VectorXd s = J.colwise().norm();
  MatrixXd Js = J * s.cwiseInverse().asDiagonal();
  MatrixXd H = Js.transpose() * Js;
  MatrixXd inv = H.ldlt().solve(MatrixXd::Identity(H.rows(), H.cols()));
  return s.cwiseInverse().asDiagonal() * inv * s.cwiseInverse().asDiagonal();
}
Isometry3d kabsch(const std::vector<Vector3d>& a, const std::vector<Vector3d>& b)
{
  Vector3d ca = Vector3d::Zero(), cb = Vector3d::Zero();
  for (std::size_t k = 0; k < a.size(); ++k)
  {
    ca += a[k] / double(a.size());
    cb += b[k] / double(a.size());
  }
  Matrix3d H = Matrix3d::Zero();
  for (std::size_t k = 0; k < a.size(); ++k)
    H += (a[k] - ca) * (b[k] - cb).transpose();
  // Horn's quaternion method
  Eigen::Matrix4d N;
  const Matrix3d S = H;
  N << S(0, 0) + S(1, 1) + S(2, 2), S(1, 2) - S(2, 1), S(2, 0) - S(0, 2), S(0, 1) - S(1, 0),  //
      S(1, 2) - S(2, 1), S(0, 0) - S(1, 1) - S(2, 2), S(0, 1) + S(1, 0), S(2, 0) + S(0, 2),   //
      S(2, 0) - S(0, 2), S(0, 1) + S(1, 0), -S(0, 0) + S(1, 1) - S(2, 2), S(1, 2) + S(2, 1),  //
      S(0, 1) - S(1, 0), S(2, 0) + S(0, 2), S(1, 2) + S(2, 1), -S(0, 0) - S(1, 1) + S(2, 2);
  Eigen::SelfAdjointEigenSolver<MatrixXd> es(N);
  const VectorXd q = es.eigenvectors().col(3);
  const Matrix3d R = Eigen::Quaterniond(q(0), q(1), q(2), q(3)).normalized().toRotationMatrix();
  return iso(R, cb - R * ca);
}
}  // namespace geom
