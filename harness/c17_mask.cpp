#include "geom.h"
#include <rct_optimizations/dh_chain_kinematic_calibration.h>
using namespace geom;
using namespace rct_optimizations;

PBT(C17, mask_table, "tables with at least one masked and one free parameter", 30000, 600000)
{
  const int n = c.i(0, 8);
  Eigen::Array<bool, Eigen::Dynamic, 4> m(n, 4);
  std::multiset<int> want;
  for (int r = 0; r < n; ++r)
    for (int k = 0; k < 4; ++k)
      if ((m(r, k) = c.b()))
        want.insert(k * n + r);
  const std::vector<int> got = createDHMask(m);
  c.nontrivial(!want.empty() && int(want.size()) < 4 * n);
  c.note("rows", n);
  c.check(std::multiset<int>(got.begin(), got.end()) == want, "the mask does not select the parameters of the table");
}

