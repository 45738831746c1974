#include "solver_checks.h"
#include <rct_optimizations/extrinsic_hand_eye.h>
using namespace scene;
PBT(C04, recover2d, "noise-free hand-eye scenes with a 2D camera; guess differs from the truth", 2500, 100000) { recover(c, HE2, 3000); }
PBT(C04, recover3d, "noise-free hand-eye scenes with a 3D sensor; guess differs from the truth", 2500, 100000) { recover(c, HE3, 3000); }
PBT(C04, optimal2d, "noisy hand-eye scenes with a 2D camera", 500, 15000) { optimal(c, HE2, 1000); }
PBT(C04, optimal3d, "noisy hand-eye scenes with a 3D sensor", 500, 15000) { optimal(c, HE3, 1000); }
PBT(C04, behind_camera, "hand-eye problems whose guess puts one or all features behind the camera (or just in front)", 1500, 60000)
{
  GenOpt o;
  o.maxViews = 5;
  o.rmax = 0.05;
  Scene s = gen(c, HE2, o);
  const bool all = c.b(1, 3);
  if (all)
  {
    // camera turned around
    s.guess[0] = s.guess[0] * iso(expSO3(Vector3d(M_PI, 0, 0)), Vector3d::Zero());
    c.label("all behind");
  }
  else
  {
    // one correspondence whose target point the guess places at a small signed depth
    std::vector<int> ok;
    for (std::size_t q = 0; q < s.views.size(); ++q)
      if (!s.views[q].corr.empty())
        ok.push_back(int(q));
    View& v = s.views[c.pick(ok)];
    Corr& q = v.corr[c.i(0, int(v.corr.size()) - 1)];
    const double z = (c.b() ? -1 : 1) * s.len * c.logr(1e-3, 0.5);
    c.label(z > 0 ? "one close in front" : "one behind");
    const Vector3d x(0.05 * s.len, -0.02 * s.len, z);
    const Vector3d o0 = inCamera(s, s.guess, v, Vector3d::Zero());
    Matrix3d R;
    R << inCamera(s, s.guess, v, Vector3d::UnitX()) - o0, inCamera(s, s.guess, v, Vector3d::UnitY()) - o0,
        inCamera(s, s.guess, v, Vector3d::UnitZ()) - o0;
    q.pt = R.transpose() * (x - o0);
    // keep the observation consistent with the true transforms
    const Vector3d t = inCamera(s, s.truth, v, q.pt);
    const CameraIntrinsics& K = s.intr[v.cam];
    if (z > 0 && t.z() < 0.02 * s.len)
      c.discard();
    q.obs << K.fx() * t.x() / t.z() + K.cx(), K.fy() * t.y() / t.z() + K.cy(), 0;
  }
  describe(c, s);
  if (!all && minDepth(s, s.guess) > 0 && condOf(s) > 3000)
    c.discard();  // a poorly determined problem may be refused for other reasons
  const bool behind = minDepth(s, s.guess) < 0;
  c.nontrivial();
  bool threw = false;
  try
  {
    solve(s);
  }
  catch (const rct_optimizations::CovarianceException&)
  {
    // the solver ended where the measurements do not determine the transforms: not a refusal of the guess
    if (!behind)
    {
      c.label("covariance refused");
      return;
    }
    threw = true;
  }
  catch (const std::exception&)
  {
    threw = true;
  }
  if (behind)
    c.check(threw, "a guess with a feature behind the camera was accepted");
  else
    c.check(!threw, "a guess with all features in front of the camera was refused");
}
