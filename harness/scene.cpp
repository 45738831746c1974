#include "scene.h"
namespace scene
{
const char* kindName[] = { "pnp2d", "pnp3d", "handeye2d", "handeye3d", "multiStatic", "cameraOnly", "wristOnly", "multiCamPnp" };

int Scene::nRes() const
{
  int n = 0;
  for (auto& v : views)
    n += static_cast<int>(v.corr.size()) * (is3D() ? 3 : 2);
  return n;
}

static Isometry3d inv(const Isometry3d& p) { return iso(p.linear().transpose(), -(p.linear().transpose() * p.translation())); }

// camera <- target
static Isometry3d chain(const Scene& s, const Poses& p, const View& v)
{
  switch (s.kind)
  {
    case PNP2:
    case PNP3:
      return p[0];
    case HE2:
    case HE3:
      return inv(v.A * p[0]) * v.B * p[1];
    case MSC:
      return inv(p[v.cam]) * v.B * p[s.nCams()];
    case MSCO:
      return inv(p[v.cam]) * p[s.nCams() + v.idx];
    case MSCW:
      return inv(p[0] * s.camPose[v.cam]) * v.B * p[1];
    default:
      return inv(s.camPose[v.cam]) * p[0];
  }
}
Vector3d inCamera(const Scene& s, const Poses& p, const View& v, const Vector3d& x) { return chain(s, p, v) * x; }

VectorXd residuals(const Scene& s, const Poses& p)
{
  VectorXd r(s.nRes());
  int at = 0;
  for (auto& v : s.views)
  {
    const Isometry3d T = chain(s, p, v);
    for (auto& q : v.corr)
    {
      const Vector3d x = T * q.pt;
      if (s.is3D())
      {
        r.segment<3>(at) = x - q.obs;
        at += 3;
      }
      else
      {
        r.segment<2>(at) = refProject(s.intr[v.cam], x) - q.obs.head<2>();
        at += 2;
      }
    }
  }
  return r;
}
VectorXd residualsOf(const Scene& s, const Out& o)
{
  if (s.kind != MSCW)
    return residuals(s, o.poses);
  Scene m = s;
  m.kind = MSC;
  Poses p = o.group;
  p.push_back(o.poses[1]);
  return residuals(m, p);
}
std::vector<bool> freePoses(const Scene& s)
{
  std::vector<bool> f(s.truth.size(), true);
  if (s.kind == MSCO && s.fixFirst)
    f[0] = false;
  return f;
}
Poses freeOf(const Scene& s, const Poses& all)
{
  auto f = freePoses(s);
  Poses o;
  for (std::size_t k = 0; k < all.size(); ++k)
    if (f[k])
      o.push_back(all[k]);
  return o;
}
ResidualFn freeFn(const Scene& s, const Poses& all)
{
  auto f = freePoses(s);
  return [s, all, f](const Poses& p) {
    Poses q = all;
    std::size_t at = 0;
    for (std::size_t k = 0; k < q.size(); ++k)
      if (f[k])
        q[k] = p[at++];
    return residuals(s, q);
  };
}
double minDepth(const Scene& s, const Poses& p)
{
  double m = 1e300;
  for (auto& v : s.views)
  {
    const Isometry3d T = chain(s, p, v);
    for (auto& q : v.corr)
      m = std::min(m, (T * q.pt).z());
  }
  return m;
}
Kind anyKind(Case& c) { return static_cast<Kind>(c.i(0, 7)); }

static Isometry3d smallIso(Case& c, double rmax, double t) { return iso(expSO3(dir(c) * c.r(0, rmax)), vec(c, t)); }

Scene gen(Case& c, Kind k, const GenOpt& o)
{
  Scene s;
  s.kind = k;
  c.label(std::string("kind:") + kindName[k]);
  Target t = anyTarget(c, 6, 6);
  if (c.b(1, 20))
  {
    // many features: more of them between those there are
    c.label("target:many features");
    const std::size_t n = t.pts.size(), more = std::size_t(c.i(60, 160));
    for (std::size_t q = 0; q < more; ++q)
    {
      const double w = c.r(0, 1);
      const Vector3d a = t.pts[c.draw(n)], b = t.pts[c.draw(n)];
      t.pts.push_back(a * w + b * (1 - w));
    }
  }
  const double dmax = 7.0;
  s.len = t.size * 5;
  const bool many = k == MSC || k == MSCO || k == MSCW || k == MCP;
  const int nc = many ? (c.b(1, 20) ? c.i(5, 11) : c.i(k == MSCO ? 2 : 1, 4)) : 1;
  for (int q = 0; q < nc; ++q)
    s.intr.push_back(anyIntr(c));
  int nv = (k == PNP2 || k == PNP3 || k == MCP) ? 1 : c.i(k == MSCO ? 1 : 4, o.maxViews);
  const double az0 = 0;
  (void)az0;
  auto rot = [&](int i, int n) {
    // i-th of n diverse viewing poses (camera <- target)
    Target tt = t;
    Isometry3d p = lookAt(c, tt, 0.8, 4.0, dmax, n >= 4 ? 0.25 : 0.0);
    // spread the rolls and tilt directions over the views by construction
    const Vector3d ctr = p * t.centre;
    Matrix3d r = p.linear() * expSO3(Vector3d(0, 0, 2 * M_PI * i / n));
    return iso(r, ctr - r * t.centre);
  };
  auto fill = [&](View& v, const Isometry3d& c2t, bool allowEmpty) {
    std::vector<std::size_t> keep;
    const int mode = c.i(0, allowEmpty ? 6 : 5);
    const std::size_t N = t.pts.size();
    if (allowEmpty && mode == 5)
    {
      c.label("view:empty");
      return;
    }
    for (std::size_t q = 0; q < N; ++q)
      if (mode <= 3 || c.b(2, 3))
        keep.push_back(q);
    if (mode == 6)
    {
      c.label("view:few");
      while (keep.size() > 3 || (keep.size() > 1 && c.b()))
        keep.erase(keep.begin() + long(c.draw(keep.size())));
    }
    else if (keep.size() < 5)
    {
      keep.clear();
      for (std::size_t q = 0; q < N; ++q)
        keep.push_back(q);
    }
    if (keep.size() < N)
      c.label("view:partial");
    for (auto q : keep)
    {
      const Vector3d x = c2t * t.pts[q];
      if (x.z() < 0.15 * s.len)
        c.discard();
      Corr r;
      r.pt = t.pts[q];
      if (s.is3D())
        r.obs = x;
      else
      {
        const Vector2d uv = refProject(s.intr[v.cam], x);
        r.obs = Vector3d(uv.x(), uv.y(), 0);
      }
      v.corr.push_back(r);
    }
  };
  switch (k)
  {
    case PNP2:
    case PNP3: {
      const Isometry3d p = rot(0, 1);
      View v;
      fill(v, p, false);
      s.views.push_back(v);
      s.truth = { p };
      break;
    }
    case HE2:
    case HE3: {
      const Isometry3d X = anyIso(c, 0.5 * s.len, "cameraMount"), Y = anyIso(c, 0.5 * s.len, "targetMount");
      const int mode = c.i(0, 2);
      c.label(mode == 0 ? "mount:cameraMoves" : mode == 1 ? "mount:targetMoves" : "mount:bothMove");
      const int far = c.i(0, 5);
      if (far == 5)
        c.label("base:far");
      const double reach = (far == 5 ? 200 : 2) * s.len;
      const Isometry3d F = far % 2 ? anyIso(c, reach) : Isometry3d::Identity();
      // four views are full, wherever they are in the list
      const int first = c.i(0, nv - 1);
      Isometry3d last;
      for (int i = 0; i < nv; ++i)
      {
        View v;
        // beyond the four views that determine the result, the robot may stand still for several pictures
        const bool again = i > 0 && (i + first) % nv >= 4 && c.b(1, 4);
        const Isometry3d c2t = again ? last : rot(i, nv);
        last = c2t;
        if (again)
        {
          c.label("view:repeated");
          v.A = s.views.back().A;
          v.B = s.views.back().B;
        }
        else if (mode == 1)
        {
          v.A = F;
          v.B = v.A * X * c2t * inv(Y);
        }
        else
        {
          v.B = mode == 0 ? F : anyIso(c, reach);
          v.A = v.B * Y * inv(c2t) * inv(X);
        }
        fill(v, c2t, (i + first) % nv >= 4);
        s.views.push_back(v);
      }
      s.truth = { X, Y };
      break;
    }
    case MSC:
    case MSCW: {
      const Isometry3d Y = anyIso(c, 0.5 * s.len, "wristToTarget");
      const Isometry3d base = anyIso(c, 3 * s.len);
      Poses cams;
      for (int q = 0; q < nc; ++q)
        cams.push_back(c.b() && q ? base * smallIso(c, 0.3, 0.3 * s.len) : (q ? anyIso(c, 3 * s.len) : base));
      if (k == MSC)
      {
        const int rich = c.i(0, nc - 1);
        for (int q = 0; q < nc; ++q)
        {
          const int n = q == rich ? nv : c.i(1, nv);
          const int first = c.i(0, n - 1);
          Isometry3d last;
          for (int i = 0; i < n; ++i)
          {
            View v;
            v.cam = q;
            const bool again = i > 0 && (i + first) % n >= 4 && c.b(1, 4);
            const Isometry3d c2t = again ? last : rot(i, std::max(n, 4));
            last = c2t;
            if (again)
              c.label("view:repeated");
            v.B = again ? s.views.back().B : cams[q] * c2t * inv(Y);
            fill(v, c2t, (i + first) % n >= 4);
            s.views.push_back(v);
          }
        }
        s.truth = cams;
        s.truth.push_back(Y);
      }
      else
      {
        // one list of wrist poses shared by all cameras; each camera sees those views that are in front of it
        for (int q = 1; q < nc; ++q)
          cams[q] = base * smallIso(c, 0.15, 0.3 * s.len);
        const Isometry3d corr = smallIso(c, o.rmax, o.tmax * s.len);
        for (int q = 0; q < nc; ++q)
          s.camPose.push_back(inv(corr) * cams[q]);
        std::vector<Isometry3d> wr;
        for (int i = 0; i < nv; ++i)
          wr.push_back(cams[0] * rot(i, nv) * inv(Y));
        const int rich = c.i(0, nc - 1), first = c.i(0, nv - 1);
        for (int q = 0; q < nc; ++q)
          for (int i = 0; i < nv; ++i)
          {
            View v;
            v.cam = q;
            v.idx = i;
            v.B = wr[i];
            fill(v, inv(cams[q]) * wr[i] * Y, q != rich || (i + first) % nv >= 4);
            s.views.push_back(v);
          }
        s.nTargets = nv;
        s.truth = { corr, Y };
      }
      break;
    }
    case MSCO: {
      s.fixFirst = c.b();
      c.label(s.fixFirst ? "first:fixed" : "first:free");
      const Isometry3d base = anyIso(c, 3 * s.len);
      Poses cams, tgt;
      for (int q = 0; q < nc; ++q)
        cams.push_back(q ? base * smallIso(c, 0.15, 0.3 * s.len) : base);
      for (int i = 0; i < nv; ++i)
        tgt.push_back(cams[0] * rot(i, std::max(nv, 2)));
      // everybody sees one of the targets and every target is seen by somebody, so the problem is connected
      const int common = c.i(0, nv - 1);
      std::vector<int> seenBy;
      for (int i = 0; i < nv; ++i)
        seenBy.push_back(c.i(0, nc - 1));
      for (int q = 0; q < nc; ++q)
        for (int i = 0; i < nv; ++i)
        {
          View v;
          v.cam = q;
          v.idx = i;
          fill(v, inv(cams[q]) * tgt[i], q != seenBy[std::size_t(i)] && i != common);
          s.views.push_back(v);
        }
      s.nTargets = nv;
      s.truth = cams;
      s.truth.insert(s.truth.end(), tgt.begin(), tgt.end());
      break;
    }
    case MCP: {
      const Isometry3d T = anyIso(c, 3 * s.len, "target");
      const int rich = c.i(0, nc - 1);
      for (int q = 0; q < nc; ++q)
      {
        View v;
        v.cam = q;
        const Isometry3d c2t = rot(q, nc);
        s.camPose.push_back(T * inv(c2t));
        fill(v, c2t, q != rich);
        s.views.push_back(v);
      }
      s.truth = { T };
      break;
    }
  }
  // features that are given more than once count as often
  if (c.b(1, 10))
  {
    c.label("view:repeated features");
    for (auto& v : s.views)
      if (!v.corr.empty() && c.b())
        for (int q = c.i(1, 3); q > 0; --q)
        {
          const Corr x = v.corr[c.draw(v.corr.size())];
          v.corr.insert(v.corr.begin() + long(c.draw(v.corr.size() + 1)), x);
        }
  }
  // noise
  if (o.noise > 0)
  {
    const double e = s.is3D() ? o.noise * 0.002 * s.len : o.noise;
    for (auto& v : s.views)
      for (auto& q : v.corr)
        q.obs += s.is3D() ? vec(c, e) : Vector3d(c.r(-e, e), c.r(-e, e), 0);
    if (o.outlier && c.b())
    {
      std::vector<int> nonEmpty;
      for (std::size_t q = 0; q < s.views.size(); ++q)
        if (!s.views[q].corr.empty())
          nonEmpty.push_back(q);
      int at = c.pick(nonEmpty);
      if (c.b(1, 3))
        for (int q : nonEmpty)
          if (s.views[q].corr.size() < s.views[at].corr.size())
            at = q;
      auto& v = s.views[at];
      auto& q = v.corr[c.b(1, 3) ? v.corr.size() - 1 : c.draw(v.corr.size())];
      // large ones only where the other correspondences still determine the solution
      const bool large = (v.corr.size() > 9 || v.corr.size() < 5) && c.b();
      const double b = large ? (s.is3D() ? 0.1 * s.len : 60) : 10 * e;
      q.obs += s.is3D() ? vec(c, b) : Vector3d(c.r(-b, b), c.r(-b, b), 0);
      c.label(large ? "large outlier" : "outlier");
    }
  }
  // guess
  auto fr = freePoses(s);
  const bool exact = o.exactGuess && c.b(1, 4);
  if (exact)
    c.label("guess:exact");
  for (std::size_t q = 0; q < s.truth.size(); ++q)
  {
    if (k == MSCW && q == 0)
      s.guess.push_back(Isometry3d::Identity());
    else if (!fr[q] || exact)
      s.guess.push_back(s.truth[q]);
    else
    {
      // perturb the orientation about a point near the seen geometry, not about a far away origin
      const double lever = (k == MSCO || k == MCP) ? 0.5 : 1.0;
      s.guess.push_back(perturb(c, s.truth[q], o.rmax * lever, o.tmax * s.len));
    }
  }
  if (!s.is3D() && minDepth(s, s.guess) < o.minGuessDepth * s.len)
    c.discard();
  return s;
}

Scene nudge(const Scene& s, int k)
{
  Scene t = s;
  const auto fr = freePoses(s);
  for (std::size_t q = 0; q < t.guess.size(); ++q)
    if (fr[q] && !(s.kind == MSCW && q == 0))
      t.guess[q] = nudged(s.guess[q], k, 0.1 * s.len);
  return t;
}
void describe(Case& c, const Scene& s)
{
  c.note("kind", kindName[s.kind]);
  c.note("cams", s.nCams());
  c.note("views", s.views.size());
  std::string n;
  for (auto& v : s.views)
    n += std::to_string(v.corr.size()) + " ";
  c.note("corr", n);
  for (std::size_t k = 0; k < s.truth.size() && k < 3; ++k)
  {
    c.note("truth" + std::to_string(k), str(s.truth[k]));
    c.note("guess" + std::to_string(k), str(s.guess[k]));
  }
}
}  // namespace scene
