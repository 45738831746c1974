// One uniform description of every pose-estimation problem of the library, with an independent measurement model.
#pragma once
#include "geom.h"
#include <rct_optimizations/covariance_types.h>

namespace scene
{
using namespace geom;
enum Kind
{
  PNP2,  // poses: camera_to_target
  PNP3,
  HE2,  // poses: camera_mount_to_camera, target_mount_to_target
  HE3,
  MSC,   // poses: base_to_camera[0..n-1], wrist_to_target
  MSCO,  // poses: base_to_camera[0..n-1], base_to_target[0..m-1]
  MSCW,  // poses: rigid correction of the camera group, wrist_to_target
  MCP    // poses: base_to_target
};
extern const char* kindName[];
struct Corr
{
  Vector3d obs;  // pixel (x,y,-) or 3D point
  Vector3d pt;
};
struct View
{
  int cam = 0;                            // camera (MSC, MSCO, MSCW, MCP)
  int idx = 0;                            // target pose / wrist pose index (MSCO, MSCW)
  Isometry3d A = Isometry3d::Identity();  // base -> camera mount
  Isometry3d B = Isometry3d::Identity();  // base -> target mount
  std::vector<Corr> corr;
};
struct Scene
{
  Kind kind = PNP2;
  bool fixFirst = false;
  std::vector<CameraIntrinsics> intr;
  std::vector<View> views;
  Poses camPose;  // MSCW: camera guesses of the group; MCP: known camera poses
  int nTargets = 0;
  std::vector<std::string> names;  // label prefixes given to the solver (camera, target); empty: the defaults
  Poses truth, guess;
  double len = 1;  // typical camera distance
  bool is3D() const { return kind == PNP3 || kind == HE3; }
  int nCams() const { return static_cast<int>(intr.size()); }
  int nRes() const;
};
struct Out
{
  bool converged = false;
  bool modified = false;  // the problem object was changed by the solver
  double c0 = 0, c1 = 0;
  Poses poses;
  Poses group;  // MSCW: returned camera poses
  rct_optimizations::CovarianceResult cov;
  std::vector<std::string> prefix;  // label prefix of each pose with a reported covariance
};

// model (independent of the code under test)
Vector3d inCamera(const Scene& s, const Poses& p, const View& v, const Vector3d& x);
VectorXd residuals(const Scene& s, const Poses& p);
std::vector<bool> freePoses(const Scene& s);
// residual function over the free poses only, the others taken from `all`
ResidualFn freeFn(const Scene& s, const Poses& all);
Poses freeOf(const Scene& s, const Poses& all);
double minDepth(const Scene& s, const Poses& p);

struct GenOpt
{
  double noise = 0;           // uniform pixel noise (or fraction of 0.002*len for 3D)
  double rmax = 0.1;          // guess perturbation
  double tmax = 0.05;         // relative to len
  bool outlier = false;
  int maxViews = 7;
  bool exactGuess = false;    // allow the exact guess
  double minGuessDepth = 0.1; // relative to len; 2D only
};
// discards the case when geometry is unusable
Scene gen(Case& c, Kind k, const GenOpt& o);
Kind anyKind(Case& c);

// solve with the code under test
Out solve(const Scene& s);
// the scene with the returned poses of the solver as the only poses (cameras of a group taken individually)
VectorXd residualsOf(const Scene& s, const Out& o);
void describe(Case& c, const Scene& s);
// the same with slightly different guesses
Scene nudge(const Scene& s, int k);
}  // namespace scene
