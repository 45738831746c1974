// Small property-based testing engine (choice-tape generators, internal shrinking, forked workers).
//
// Every random decision of a case is one entry of a "tape" of integers.  A case is a pure function of its tape and of
// the code under test, so a failing tape can be shrunk (deleting/zeroing/halving entries), written to a file and
// replayed without any search.  0 is always the simplest choice.
#pragma once
#include <cmath>
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt
{
struct Fail
{
  std::string msg;
};
struct Discard
{
};
void mirror(const std::string& s, std::size_t from);

class Case
{
public:
  std::vector<uint64_t> tape;
  std::size_t pos = 0;
  bool replay = false;
  uint64_t state = 0;

  uint64_t next64()
  {
    uint64_t z = (state += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // uniform in [0,n)
  uint64_t draw(uint64_t n)
  {
    if (n <= 1)
      return 0;
    uint64_t v;
    if (pos < tape.size())
      v = tape[pos] % n;
    else if (replay)
    {
      v = 0;
      tape.push_back(0);
    }
    else
    {
      v = next64() % n;
      tape.push_back(v);
    }
    tape[pos] = v;
    ++pos;
    return v;
  }
  // inclusive integer range, simplest = lo
  int i(int lo, int hi) { return lo + static_cast<int>(draw(static_cast<uint64_t>(hi - lo) + 1)); }
  // true with probability num/den, simplest = false
  bool b(int num = 1, int den = 2) { return draw(den) >= static_cast<uint64_t>(den - num); }
  // real number in [lo,hi], simplest = 0 if inside the range, else lo
  double r(double lo, double hi)
  {
    const uint64_t N = 1ull << 30;
    uint64_t k = draw(N + 1);
    if (k == 0)
      return (lo <= 0 && hi >= 0) ? 0.0 : lo;
    return lo + (hi - lo) * (static_cast<double>(k - 1) / static_cast<double>(N - 1));
  }
  // log-uniform magnitude in [lo,hi] (both >0), simplest = lo
  double logr(double lo, double hi) { return std::exp(std::log(lo) + u() * (std::log(hi) - std::log(lo))); }
  // [0,1]
  double u()
  {
    const uint64_t N = 1ull << 30;
    return static_cast<double>(draw(N + 1)) / static_cast<double>(N);
  }
  template <class T>
  T pick(std::initializer_list<T> l)
  {
    return *(l.begin() + draw(l.size()));
  }
  template <class T>
  const T& pick(const std::vector<T>& l)
  {
    return l.at(draw(l.size()));
  }
  // permutation of 0..n-1, simplest = identity
  std::vector<std::size_t> perm(std::size_t n)
  {
    std::vector<std::size_t> p(n);
    for (std::size_t k = 0; k < n; ++k)
      p[k] = k;
    for (std::size_t k = 0; k + 1 < n; ++k)
      std::swap(p[k], p[k + draw(n - k)]);
    return p;
  }

  // --- bookkeeping
  std::map<std::string, int> labels;
  bool nontrivial_ = false;
  std::ostringstream notes;
  void label(const std::string& s) { labels[s] = 1; }
  void nontrivial(bool v = true) { nontrivial_ = nontrivial_ || v; }
  template <class T>
  void note(const std::string& k, const T& v)
  {
    const std::size_t at = notes.str().size();
    notes << k << "=" << v << "; ";
    mirror(notes.str(), at);
  }
  [[noreturn]] void fail(const std::string& m) { throw Fail{ m }; }
  [[noreturn]] void discard() { throw Discard{}; }
  void check(bool ok, const std::string& m)
  {
    if (!ok)
      fail(m);
  }
  void near(double a, double b, double tol, const std::string& what)
  {
    if (!(std::abs(a - b) <= tol))  // also catches NaN
    {
      std::ostringstream o;
      o.precision(17);
      o << what << ": got " << a << ", expected " << b << " (tol " << tol << ")";
      fail(o.str());
    }
  }
  void le(double a, double b, const std::string& what)
  {
    if (!(a <= b))
    {
      std::ostringstream o;
      o.precision(17);
      o << what << ": " << a << " > " << b;
      fail(o.str());
    }
  }
};

using Body = std::function<void(Case&)>;
struct Sub
{
  std::string prop, name, rule;
  long quick, thorough;
  Body body;
};
std::vector<Sub>& registry();
struct Reg
{
  Reg(const char* prop, const char* name, const char* rule, long q, long t, Body b)
  {
    registry().push_back(Sub{ prop, name, rule, q, t, b });
  }
};
// scratch directory of this process (created by the runner, removed by it)
const std::string& scratch();
}  // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// PBT(property id, sub check name, rule for non-trivial cases, cases quick, cases thorough) { body using Case& c }
#define PBT(PROP, NAME, RULE, Q, TH)                                                                                   \
  static void PBT_CAT(PROP, PBT_CAT(_, NAME))(pbt::Case & c);                                                          \
  static pbt::Reg PBT_CAT(reg_, PBT_CAT(PROP, PBT_CAT(_, NAME)))(#PROP, #NAME, RULE, Q, TH,                            \
                                                                 PBT_CAT(PROP, PBT_CAT(_, NAME)));                     \
  static void PBT_CAT(PROP, PBT_CAT(_, NAME))(pbt::Case & c)
