#include "geom.h"
#include <rct_optimizations/covariance_analysis.h>
#include <rct_optimizations/types.h>
using namespace geom;
using namespace rct_optimizations;
// A x A^T with optional zero-variance parameters and very different scales
static MatrixXd anyCov(Case& c, int n, std::vector<bool>& zero)
{
  zero.assign(n, false);
  const int k = c.i(1, n + 2);
  MatrixXd A(n, k);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < k; ++j)
      A(i, j) = c.r(-1, 1);
  const bool scales = c.b();
  for (int i = 0; i < n; ++i)
  {
    A.row(i) *= scales ? c.logr(1e-7, 1e4) : 1.0;
    if (c.b(1, 5) || A.row(i).norm() < 1e-12)
    {
      A.row(i).setZero();
      zero[i] = true;
      c.label("zeroVariance");
    }
  }
  if (scales)
    c.label("scaled");
  MatrixXd C = A * A.transpose();
  C = (0.5 * (C + C.transpose())).eval();
  return C;
}
static std::vector<std::string> anyNames(Case& c, int n)
{
  std::vector<std::string> s;
  for (int i = 0; i < n; ++i)
    s.push_back(std::string(1, char('a' + c.i(0, 25))) + "_" + std::to_string(i));
  return s;
}
static double expected(const MatrixXd& C, const std::vector<bool>& z, int i, int j)
{
  if (z[i] || z[j])
    return 0;
  return C(i, j) / (std::sqrt(C(i, i)) * std::sqrt(C(j, j)));
}
PBT(C13, matrix, "size of at least two", 60000, 1000000)
{
  const int n = c.i(0, 8);
  std::vector<bool> z;
  const MatrixXd C = anyCov(c, n, z);
  c.note("n", n);
  c.note("C", C);
  c.nontrivial(n >= 2);
  const MatrixXd R = computeCorrelationsFromCovariance(C);
  c.check(R.rows() == n && R.cols() == n, "size of the correlation matrix");
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
    {
      if (i == j)
        c.near(R(i, i), std::sqrt(C(i, i)), 1e-12 * std::sqrt(C(i, i)) , "standard deviation " + std::to_string(i));
      else
      {
        c.near(R(i, j), expected(C, z, i, j), 1e-12, "correlation " + std::to_string(i) + "," + std::to_string(j));
        c.le(std::abs(R(i, j)), 1 + 1e-9, "correlation out of range");
      }
    }
}
PBT(C13, named, "size of at least two", 50000, 800000)
{
  const int n = c.i(0, 8);
  std::vector<bool> z;
  const MatrixXd C = anyCov(c, n, z);
  const auto names = anyNames(c, n);
  c.note("n", n);
  c.nontrivial(n >= 2);
  const CovarianceResult r = computeCovarianceResults(C, names);
  c.check(r.covariance_matrix.rows() == n && r.covariance_matrix.cols() == n && (n == 0 || r.covariance_matrix == C), "covariance matrix not kept as given");
  c.check(r.correlation_matrix.rows() == n && r.correlation_matrix.cols() == n, "size of the correlation matrix");
  c.check(int(r.standard_deviations.size()) == n, "number of standard deviations");
  std::map<std::string, int> at;
  for (int i = 0; i < n; ++i)
    at[names[i]] = i;
  std::set<int> seen;
  for (auto& q : r.standard_deviations)
  {
    c.check(at.count(q.names.first) && q.names.second.empty(), "unknown name of a standard deviation: " + q.names.first);
    const int i = at[q.names.first];
    c.check(seen.insert(i).second, "standard deviation listed twice");
    c.near(q.value, std::sqrt(C(i, i)), 1e-12 * std::sqrt(C(i, i)), "standard deviation of " + q.names.first);
  }
  for (int what = 0; what < 2; ++what)
  {
    const auto& l = what ? r.covariances : r.correlation_coeffs;
    const std::string t = what ? "covariance " : "correlation ";
    c.check(int(l.size()) == n * (n - 1) / 2, t + "list has the wrong length");
    std::set<std::pair<int, int>> pr;
    for (auto& q : l)
    {
      c.check(at.count(q.names.first) && at.count(q.names.second), t + "with unknown name");
      const int i = at[q.names.first], j = at[q.names.second];
      c.check(i != j && pr.insert({ std::min(i, j), std::max(i, j) }).second, t + "pair listed twice");
      if (what)
        c.near(q.value, C(i, j), 1e-14 * std::abs(C(i, j)), t + "value");
      else
        c.near(q.value, expected(C, z, i, j), 1e-12, t + "value");
    }
  }
  const std::string txt = r.toString();
  for (auto& s : names)
    c.check(txt.find(s) != std::string::npos, "printed summary lacks a parameter");
  std::multiset<std::string> lines;
  std::istringstream in(txt);
  for (std::string l; std::getline(in, l);)
    lines.insert(l);
  for (const auto* l : { &r.standard_deviations, &r.covariances, &r.correlation_coeffs })
    for (auto& q : *l)
    {
      const auto f = lines.find(q.toString());
      c.check(f != lines.end(), "printed summary lacks an entry");
      lines.erase(f);
    }
}
PBT(C13, threshold, "some but not all correlations exceed the threshold", 50000, 800000)
{
  CovarianceResult r;
  const int n = c.i(0, 40);
  double t = c.pick({ 0.5, 0.0, 0.9, 1.0, -1.0 });
  for (int i = 0; i < n; ++i)
  {
    NamedParam p;
    p.names = { "a" + std::to_string(i), "b" + std::to_string(c.i(0, 9)) };
    p.value = c.b(1, 3) ? c.pick({ 0.0, 0.5, -0.5, 0.9, -1.0, 1.0, -0.0 }) : c.r(-1, 1);
    r.correlation_coeffs.push_back(p);
  }
  if (c.b(1, 3))
    t = c.r(0, 1);
  const auto o = r.getCorrelationCoeffOutsideThreshold(t);
  std::multiset<std::pair<std::string, double>> want, got;
  for (auto& q : r.correlation_coeffs)
    if (std::abs(q.value) > t)
      want.insert({ q.names.first + "/" + q.names.second, q.value });
  c.note("n", n);
  c.note("threshold", t);
  c.nontrivial(!want.empty() && int(want.size()) < n);
  for (std::size_t k = 0; k < o.size(); ++k)
  {
    got.insert({ o[k].names.first + "/" + o[k].names.second, o[k].value });
    if (k)
      c.le(std::abs(o[k].value), std::abs(o[k - 1].value), "not in order of decreasing magnitude");
  }
  c.check(want == got, "selected correlations are not exactly those above the threshold");
  c.check(int(r.correlation_coeffs.size()) == n, "selection changed the result");
  const std::string s = r.printCorrelationCoeffAboveThreshold(t);
  std::size_t at = 0;
  if (t >= 0)
    for (auto& q : o)
    {
      at = s.find(q.toString(), at);
      c.check(at != std::string::npos, "printed selection lacks an entry, or its order differs");
    }
}
PBT(C13, refused, "non-square matrix or wrong number of names", 20000, 200000)
{
  int n = c.i(0, 6), m = c.i(0, 6);
  int k = c.i(0, 7);
  if (n == m && k == n)
    ++k;
  c.nontrivial();
  const MatrixXd C = MatrixXd::Constant(n, m, 1.0);
  c.note("rows", n);
  c.note("cols", m);
  c.note("names", k);
  if (n != m)
  {
    bool ok = false;
    try
    {
      computeCorrelationsFromCovariance(C);
    }
    catch (const CovarianceException&)
    {
      ok = true;
    }
    c.check(ok, "a non-square matrix was not refused with a covariance error");
  }
  bool ok = false;
  try
  {
    computeCovarianceResults(C, anyNames(c, k));
  }
  catch (const CovarianceException&)
  {
    ok = true;
  }
  c.check(ok, "a malformed request was not refused with a covariance error");
}
