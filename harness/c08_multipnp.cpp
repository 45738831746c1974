#include "solver_checks.h"
using namespace scene;
PBT(C08, recover, "noise-free multi-camera views; guess differs from the truth", 16000, 200000) { recover(c, MCP, 3000); }
PBT(C08, optimal, "noisy multi-camera views", 4000, 60000) { optimal(c, MCP, 1000); }
PBT(C08, reduces_to_single, "one camera at the base: compared with single-view pose estimation; noisy, guess differs", 4000, 60000)
{
  GenOpt o;
  o.noise = c.pick({ 0.5, 0.05, 2.0 });
  o.exactGuess = true;
  const Scene s = gen(c, PNP2, o);
  describe(c, s);
  if (condOf(s) > 300)
    c.discard();
  c.nontrivial(c.labels.count("guess:exact") == 0);
  Scene m = s;
  m.kind = MCP;
  m.camPose = { Isometry3d::Identity() };
  const Out a = solve(s), b = solve(m);
  samePose(c, a.poses[0], b.poses[0], 2e-3, 2e-3 * s.len, "single-view and one-camera multi-view estimate");
  c.near(b.c1, a.c1, 2e-3 * a.c1 + 1e-8, "final cost");
  c.near(b.c0, a.c0, 1e-6 * a.c0 + 1e-9, "initial cost");
}
