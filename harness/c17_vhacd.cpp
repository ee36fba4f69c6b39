// C17: a convex decomposition consists of valid convex hulls that cover the solid, and leaves nothing behind.
#include "vhacd_util.h"
#include <omp.h>
#include <queue>
#include <set>
#include <vhacd/inc/vhacdICHull.h>
#include <vhacd/inc/vhacdMesh.h>
#include <vhacd/inc/vhacdRaycastMesh.h>
#include <vhacd/inc/vhacdVolume.h>
using namespace vh;
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
extern "C" const char* __asan_default_options() { return "max_allocation_size_mb=3000"; }
namespace
{
struct Progress : VHACD::IVHACD::IUserCallback
{
  VHACD::IVHACD* v{ nullptr };
  int cancel_at{ -1 }, n{ 0 };
  void Update(const double overall, const double stage, const double operation, const char* const s, const char* const o) override
  {
    if (n++ == cancel_at)
      v->Cancel();
    bad |= !(overall >= 0 && overall <= 100) || s == nullptr || o == nullptr || std::isnan(stage) || std::isnan(operation);
    back |= overall < last;
    last = overall;
  }
  double last{ 0 };
  bool bad{ false }, back{ false };
};
struct Logger : VHACD::IVHACD::IUserLogger
{
  std::size_t n{ 0 };
  void Log(const char* const m) override { n += std::strlen(m); }
};
void judge(mon::Case& c, const Solid& s, const VHACD::IVHACD::Parameters& p, const std::vector<Hull>& hs, const VHACD::IVHACD& v)
{
  EXPECT(!hs.empty(), "hulls", "no hull for a solid of " << s.tris.size() / 3 << " triangles");
  EXPECT(hs.size() <= std::max(1u, p.m_maxConvexHulls), "hulls", hs.size() << " hulls, asked for at most " << p.m_maxConvexHulls);
  V3 lo = V3::Constant(INFINITY), hi = -lo;
  for (std::size_t i = 0; i < s.points.size(); i += 3)
  {
    const V3 q(s.points[i], s.points[i + 1], s.points[i + 2]);
    lo = lo.cwiseMin(q);
    hi = hi.cwiseMax(q);
  }
  const double diag = (hi - lo).norm();
  double size = (hi - lo).maxCoeff();
  if (p.m_pca != 0)
    size = diag;
  // the grid is at least so fine along its longest side
  const double voxel = size / ((p.m_pca != 0 ? std::min(64.0, std::floor(std::cbrt(static_cast<double>(p.m_resolution)) + 0.5)) : 64.0) - 1) * 1.001;
  const double reach = (p.m_pca != 0 ? 1.9 : 1.1) * voxel;  // voxels may stand on a corner
  double sum = 0;
  V3 com = V3::Zero();
  const bool reduced = p.m_maxNumVerticesPerCH > 4;
  for (std::size_t i = 0; i < hs.size(); ++i)
  {
    const Hull& h = hs[i];
    EXPECT(h.p.size() >= 4 && h.t.size() >= 4, "hull", "hull " << i << " has " << h.p.size() << " points and " << h.t.size() << " triangles");
    if (reduced)
      EXPECT(h.p.size() <= p.m_maxNumVerticesPerCH, "simplified-vertices", "hull " << i << " has " << h.p.size() << " vertices, asked for at most " << p.m_maxNumVerticesPerCH);
    std::map<std::pair<std::uint32_t, std::uint32_t>, int> edges;
    double vol = 0, area = 0;
    bool once = true;  // points in one plane may leave faces without area, twice
    V3 surf = V3::Zero();
    for (const V3& q : h.p)
    {
      EXPECT(q.allFinite(), "hull", "a point of hull " << i << " is not finite");
      EXPECT((q - lo).minCoeff() > -reach && (hi - q).minCoeff() > -reach, "extent",
             "hull " << i << " of " << hs.size() << " reaches beyond the solid's box by " << std::max(-(q - lo).minCoeff(), -(hi - q).minCoeff()) / voxel << " voxels");
    }
    for (auto& f : h.t)
    {
      EXPECT(f[0] < h.p.size() && f[1] < h.p.size() && f[2] < h.p.size(), "hull", "a triangle of hull " << i << " names point " << std::max({ f[0], f[1], f[2] }) << " of " << h.p.size());
      if (!(f[0] < h.p.size() && f[1] < h.p.size() && f[2] < h.p.size()))
        return;
      for (int k = 0; k < 3; ++k)
        ++edges[{ f[static_cast<std::size_t>(k)], f[static_cast<std::size_t>((k + 1) % 3)] }];
      const V3 &a = h.p[f[0]], &b = h.p[f[1]], &d = h.p[f[2]];
      vol += (a - h.p[0]).dot((b - h.p[0]).cross(d - h.p[0])) / 6;
      const double ar = (b - a).cross(d - a).norm() / 2;
      area += ar;
      surf += ar * (a + b + d) / 3;
    }
    for (auto& [e, n] : edges)
    {
      const auto back = edges.find({ e.second, e.first });
      EXPECT(back != edges.end() && n == back->second, reduced ? "simplified-closed" : "closed", "edge " << e.first << "-" << e.second << " of hull " << i << " is used " << n << " times, its reverse " << (back == edges.end() ? 0 : back->second));
      once &= n == 1;
    }
    EXPECT(!once || h.p.size() + h.t.size() == edges.size() / 2 + 2, reduced ? "simplified-closed" : "closed", "hull " << i << " is not a sphere: " << h.p.size() << " points, " << h.t.size() << " triangles, " << edges.size() / 2 << " edges");
    double out = 0;
    for (const V3& q : h.p)
      out = std::max(out, h.height(q));
    EXPECT(out <= 3e-4 * diag, reduced ? "simplified-convex" : "convex", "a point of hull " << i << " lies " << out << " outside of a face of it (size " << diag << ")");
    EXPECT(std::abs(h.volume - vol) <= 1e-9 * diag * diag * diag , "volume", "hull " << i << " says volume " << h.volume << ", it has " << vol);
    EXPECT(vol > -1e-12 * diag * diag * diag, reduced ? "simplified-convex" : "convex", "hull " << i << " has volume " << vol);
    EXPECT((h.center - surf / area).norm() <= 1e-6 * diag, "center", "the center of hull " << i << " is off by " << (h.center - surf / area).norm());
    sum += h.volume;
    com += h.volume * h.center;
    c.event("hull");
  }
  double got[3];
  const bool has = v.ComputeCenterOfMass(got);
  EXPECT(has == !hs.empty(), "center-of-mass", "whether there is one");
  if (has && sum > 0)
    EXPECT((V3(got[0], got[1], got[2]) - com / sum).norm() <= 1e-6 * diag, "center-of-mass", "off by " << (V3(got[0], got[1], got[2]) - com / sum).norm());
  // coverage: everything of the solid when no vertices were dropped
  mon::Rng r(s.points.size() * 77 + s.tris.size());
  const double cell = s.A.colwise().norm().minCoeff();
  // vertices are dropped only above the number allowed, or if they add less than the smallest volume
  const bool all = p.m_maxNumVerticesPerCH >= 1000 && p.m_minVolumePerCH == 0 && p.m_projectHullVertices == 0;
  if (!reduced || all)
  {
    int missing = 0, n = 0;
    double worst = 0;
    for (int k = 0; k < 300; ++k)
    {
      V3 q;
      if (k % 2 == 0)
      {
        const std::size_t t = 3 * static_cast<std::size_t>(r.range(0, static_cast<int>(s.tris.size() / 3) - 1));
        double a = r.unif(0, 1), b = r.unif(0, 1);
        if (a + b > 1)
        {
          a = 1 - a;
          b = 1 - b;
        }
        auto at = [&](std::size_t i) { return V3(s.points[3 * s.tris[i]], s.points[3 * s.tris[i] + 1], s.points[3 * s.tris[i] + 2]); };
        q = at(t) + a * (at(t + 1) - at(t)) + b * (at(t + 2) - at(t));
      }
      else
      {
        const V3 x(r.unif(0, 3), r.unif(0, 3), r.unif(0, 3));
        if (!s.inside(x, 0))
          continue;
        q = s.A * x + s.b;
      }
      double h = INFINITY;
      for (auto& x : hs)
        h = std::min(h, x.height(q));
      ++n;
      worst = std::max(worst, h);
      if (h > 0.6 * voxel)
        ++missing;
    }
    EXPECT(missing == 0, reduced ? "simplified-coverage" : "coverage", missing << " of " << n << " points of the solid are in no hull, the farthest by " << worst / voxel << " voxels");
    EXPECT(sum >= 0.98 * s.volume, reduced ? "simplified-coverage" : "coverage", "the hulls have volume " << sum << ", the solid " << s.volume);
    c.event("covered", n);
  }
  if (s.convex)
  {
    // a voxel on every side may be added
    const double most = s.volume + 2.2 * voxel * 3.5 * diag * diag;
    EXPECT(sum <= most * 1.001, "volume", "the hulls of a box of volume " << s.volume << " have " << sum);
    (void)cell;
    c.event("convex_solid");
  }
}
}  // namespace

namespace
{
using HV = VHACD::Vec3<double>;
V3 eig(const HV& v) { return { v[0], v[1], v[2] }; }
/// a closed convex surface, its points inside of it, and every one of the given points within tol of it
template <class Tri>
void convex(mon::Case& c, const std::vector<V3>& p, const std::vector<Tri>& t, const std::vector<V3>& in, double tol, const char* what)
{
  std::map<std::pair<int, int>, int> edges;
  for (auto& f : t)
  {
    for (int k = 0; k < 3; ++k)
    {
      EXPECT(f[k] >= 0 && f[k] < static_cast<int>(p.size()), what, "a triangle names point " << f[k] << " of " << p.size());
      if (!(f[k] >= 0 && f[k] < static_cast<int>(p.size())))
        return;
      ++edges[{ f[k], f[(k + 1) % 3] }];
    }
    const V3 n = (p[static_cast<std::size_t>(f[1])] - p[static_cast<std::size_t>(f[0])]).cross(p[static_cast<std::size_t>(f[2])] - p[static_cast<std::size_t>(f[0])]);
    if (n.norm() < 1e-12 * tol)
      continue;
    // a sliver's plane is known only as well as its height allows
    double longest = 0;
    for (int k = 0; k < 3; ++k)
      longest = std::max(longest, (p[static_cast<std::size_t>(f[k])] - p[static_cast<std::size_t>(f[(k + 1) % 3])]).norm());
    const double sharp = n.norm() / longest;
    double diag = 0;
    for (auto& q : in)
      diag = std::max(diag, (q - in[0]).norm());
    const double allowed = tol * (1 + diag / std::max(sharp, 1e-300));
    for (auto& q : in)
      EXPECT(n.normalized().dot(q - p[static_cast<std::size_t>(f[0])]) <= allowed, what,
             "a point lies " << n.normalized().dot(q - p[static_cast<std::size_t>(f[0])]) << " outside of a face, " << allowed << " is allowed");
  }
  for (auto& [e, n] : edges)
  {
    const auto back = edges.find({ e.second, e.first });
    EXPECT(n == 1 && back != edges.end() && back->second == 1, what, "edge " << e.first << "-" << e.second << " is used " << n << " times, its reverse " << (back == edges.end() ? 0 : back->second));
  }
  EXPECT(p.size() + t.size() == edges.size() / 2 + 2, what, "not a sphere: " << p.size() << " points, " << t.size() << " triangles, " << edges.size() / 2 << " edges");
}
}  // namespace

FAMILY(incremental_hull, 3000, 60000)
{
  // points in general position
  mon::Rng& r = c.rng;
  const int n = r.range(5, 40), kind = r.range(0, 2);
  std::vector<V3> in;
  std::vector<HV> pts;
  const V3 off(r.unif(-3, 3), r.unif(-3, 3), r.unif(-3, 3));
  for (int i = 0; i < n; ++i)
  {
    V3 q(r.unif(-1, 1), r.unif(-1, 1), r.unif(-1, 1));
    if (kind == 1)
      q = q.normalized();
    if (kind == 2)
      q = q.cwiseProduct(V3(1, 0.3, 2));
    in.push_back(q + off);
    pts.emplace_back(in.back()[0], in.back()[1], in.back()[2]);
    c.note(q[0]);
  }
  const bool limited = r.chance(0.5);
  const auto limit = static_cast<std::uint32_t>(limited ? r.range(4, n) : n);
  VHACD::ICHull hull;
  EXPECT(hull.AddPoints(pts.data(), pts.size()), "ichull", "AddPoints fails");
  const VHACD::ICHullError err = limited || r.chance(0.5) ? hull.Process(limit, 0.0) : hull.Process();
  EXPECT(err == VHACD::ICHullErrorOK, "ichull", "Process of " << n << " points in general position fails with " << err);
  EXPECT(!hull.IsFlat(), "ichull", "points in space are flat");
  VHACD::TMMesh& m = hull.GetMesh();
  std::vector<HV> op(m.GetNVertices());
  std::vector<VHACD::Vec3<std::int32_t>> ot(m.GetNTriangles());
  m.GetIFS(op.data(), ot.data());
  std::vector<V3> p;
  std::vector<std::array<int, 3>> t;
  for (auto& q : op)
  {
    p.push_back(eig(q));
    EXPECT(std::find(in.begin(), in.end(), p.back()) != in.end(), "ichull", "a vertex is none of the points");
  }
  for (auto& f : ot)
    t.push_back({ f[0], f[1], f[2] });
  EXPECT(p.size() <= limit, "ichull", p.size() << " vertices, at most " << limit << " were asked for");
  convex(c, p, t, limited ? p : in, 1e-9, "ichull");
  if (!limited)
  {
    // every extreme point is a vertex: of random directions
    for (int k = 0; k < 10; ++k)
    {
      const V3 d(r.unif(-1, 1), r.unif(-1, 1), r.unif(-1, 1));
      const auto far = *std::max_element(in.begin(), in.end(), [&](const V3& a, const V3& b) { return a.dot(d) < b.dot(d); });
      EXPECT(std::find(p.begin(), p.end(), far) != p.end(), "ichull", "an extreme point is no vertex");
      V3 q(r.unif(-1.2, 1.2), r.unif(-1.2, 1.2), r.unif(-1.2, 1.2));
      q += off;
      double h = -INFINITY;
      for (auto& f : t)
        h = std::max(h, (p[static_cast<std::size_t>(f[1])] - p[static_cast<std::size_t>(f[0])]).cross(p[static_cast<std::size_t>(f[2])] - p[static_cast<std::size_t>(f[0])]).normalized().dot(q - p[static_cast<std::size_t>(f[0])]));
      if (std::abs(h) > 1e-6)
        EXPECT(hull.IsInside(HV(q[0], q[1], q[2])) == (h < 0), "inside", "a point " << h << " from the hull is " << (h < 0 ? "not " : "") << "inside");
    }
  }
  c.event("incremental_hull");
}

FAMILY(hull_of_points, 3000, 60000)
{
  mon::Rng& r = c.rng;
  const int n = r.range(4, 60), kind = r.range(0, 3);
  const double scale = r.pick(std::vector<double>{ 1e-3, 1, 1, 100 });
  std::vector<V3> in;
  std::vector<double> flat;
  for (int i = 0; i < n; ++i)
  {
    V3 q(r.unif(-1, 1), r.unif(-1, 1), r.unif(-1, 1));
    if (kind == 1)
      q = V3(r.range(0, 3), r.range(0, 3), r.range(0, 3));  // a grid: many in one plane, many equal
    if (kind == 2)
      q = q.normalized();
    in.push_back(scale * q);
    flat.insert(flat.end(), { in.back()[0], in.back()[1], in.back()[2] });
    c.note(q[0]);
  }
  // flat sets have no hull of triangles with a volume
  Eigen::MatrixXd M(3, n);
  for (int i = 0; i < n; ++i)
    M.col(i) = in[static_cast<std::size_t>(i)] - in[0];
  const auto sv = M.jacobiSvd().singularValues();
  VHACD::Mesh m;
  m.ComputeConvexHull(flat.data(), static_cast<std::size_t>(n));
  if (!(sv(2) > 1e-2 * sv(0)))
    return;
  std::vector<V3> p;
  std::vector<std::array<int, 3>> t;
  double vol = 0;
  for (std::size_t i = 0; i < m.GetNPoints(); ++i)
    p.push_back(eig(m.GetPoint(i)));
  for (std::size_t i = 0; i < m.GetNTriangles(); ++i)
  {
    const auto& f = m.GetTriangle(i);
    t.push_back({ f[0], f[1], f[2] });
  }
  convex(c, p, t, in, scale * 2e-3, "hull");
  for (auto& q : p)
  {
    double near = INFINITY;
    for (auto& x : in)
      near = std::min(near, (x - q).norm());
    EXPECT(near <= scale * 2e-3, "hull", "a vertex is " << near << " from every point");
  }
  for (auto& f : t)
    vol += (p[static_cast<std::size_t>(f[0])] - p[0]).dot((p[static_cast<std::size_t>(f[1])] - p[0]).cross(p[static_cast<std::size_t>(f[2])] - p[0])) / 6;
  EXPECT(std::abs(m.ComputeVolume() - vol) <= 1e-9 * scale * scale * scale, "volume", "volume " << m.ComputeVolume() << ", it is " << vol);
  EXPECT(vol > 0, "volume", "inside out");
  V3 lo = p[0], hi = p[0];
  for (auto& q : p)
  {
    lo = lo.cwiseMin(q);
    hi = hi.cwiseMax(q);
  }
  EXPECT(std::abs(m.ComputeDiagBB() - (hi - lo).norm()) <= 1e-9 * scale, "box", "diagonal " << m.ComputeDiagBB());
  m.ComputeCenter();
  EXPECT((eig(m.GetMinBB()) - lo).norm() <= 1e-12 * scale && (eig(m.GetMaxBB()) - hi).norm() <= 1e-12 * scale, "box", "of the hull");
  VHACD::Plane pl{};
  pl.m_a = r.unif(-1, 1);
  pl.m_b = r.chance(0.5) ? 0 : r.unif(-1, 1);
  pl.m_c = r.chance(0.5) ? 0 : r.unif(-1, 1);
  const V3 nrm(pl.m_a, pl.m_b, pl.m_c);
  pl.m_d = r.chance(0.2) ? 0 : -nrm.dot(p[static_cast<std::size_t>(r.range(0, static_cast<int>(p.size()) - 1))]);
  VHACD::SArray<HV> pos, neg;
  m.Clip(pl, pos, neg);
  std::size_t np = 0, nn = 0;
  for (auto& q : p)
  {
    const double d = pl.m_a * q[0] + pl.m_b * q[1] + pl.m_c * q[2] + pl.m_d;
    if (d >= 0)
    {
      EXPECT(np < pos.Size() && eig(pos[np]) == q, "clip", "a point above the plane is missing");
      ++np;
    }
    if (d <= 0)
    {
      EXPECT(nn < neg.Size() && eig(neg[nn]) == q, "clip", "a point below the plane is missing");
      ++nn;
    }
  }
  EXPECT(np == pos.Size() && nn == neg.Size(), "clip", "superfluous points");
  c.event("hull_of_points");
}

FAMILY(voxels, 160, 4000)
{
  mon::Rng& r = c.rng;
  const Solid s = solid(r);
  const auto np = static_cast<std::uint32_t>(s.points.size() / 3), nt = static_cast<std::uint32_t>(s.tris.size() / 3);
  double rot[3][3] = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } };
  V3 lo = V3::Constant(INFINITY), hi = -lo;
  for (std::size_t i = 0; i < s.points.size(); i += 3)
  {
    const V3 q(s.points[i], s.points[i + 1], s.points[i + 2]);
    lo = lo.cwiseMin(q);
    hi = hi.cwiseMax(q);
  }
  const int dim = r.range(6, 26);
  c.note(dim);
  c.note(s.volume);
  c.note(s.points[0]);
  const double h = (hi - lo).maxCoeff() / (dim - 1);
  VHACD::Volume vol;
  vol.Voxelize(s.points.data(), 3, np, reinterpret_cast<const std::int32_t*>(s.tris.data()), 3, nt, static_cast<std::size_t>(dim), HV(0, 0, 0), rot);
  VHACD::VoxelSet set;
  vol.Convert(set);
  EXPECT(std::abs(set.GetScale() - h) <= 1e-9 * h, "voxels", "size " << set.GetScale() << ", expected " << h);
  EXPECT(std::abs(set.GetUnitVolume() - h * h * h) <= 1e-9 * h * h * h, "voxels", "volume of a voxel");
  EXPECT(set.GetNPrimitives() == vol.GetNPrimitivesOnSurf() + vol.GetNPrimitivesInsideSurf() && set.GetNPrimitivesOnSurf() == vol.GetNPrimitivesOnSurf() &&
             set.GetNPrimitivesInsideSurf() == vol.GetNPrimitivesInsideSurf(),
         "voxels", "numbers differ");
  std::map<std::array<int, 3>, int> kind;
  std::size_t on = 0, in = 0;
  const Eigen::Matrix3d inv = s.A.inverse();
  for (std::size_t i = 0; i < set.GetNPrimitives(); ++i)
  {
    const VHACD::Voxel& v = set.GetVoxels()[i];
    EXPECT(kind.emplace(std::array<int, 3>{ v.m_coord[0], v.m_coord[1], v.m_coord[2] }, v.m_data).second, "voxels", "a voxel is there twice");
    (v.m_data == VHACD::PRIMITIVE_ON_SURFACE ? on : in) += 1;
    if (v.m_data == VHACD::PRIMITIVE_INSIDE_SURFACE)
    {
      // not necessarily of a cell: it may be in an enclosed cavity; then it cannot get out
      const V3 q = inv * (lo + h * V3(v.m_coord[0], v.m_coord[1], v.m_coord[2]) - s.b);
      const bool full = s.inside(q, 0);
      const bool hole = s.at(0, 1, 1) && s.at(2, 1, 1) && s.at(1, 0, 1) && s.at(1, 2, 1) && s.at(1, 1, 0) && s.at(1, 1, 2) && !s.at(1, 1, 1);
      EXPECT(full || hole, "voxels", "a voxel outside of the solid is inside");
    }
  }
  EXPECT(on == set.GetNPrimitivesOnSurf() && in == set.GetNPrimitivesInsideSurf(), "voxels", "counts " << on << ", " << in);
  // every point of the surface is in a surface voxel, everything inside in some voxel
  for (int k = 0; k < 300; ++k)
  {
    V3 q;
    if (k % 2 == 0)
    {
      const std::size_t t = 3 * static_cast<std::size_t>(r.range(0, static_cast<int>(nt) - 1));
      double a = r.unif(0, 1), b = r.unif(0, 1);
      if (a + b > 1)
      {
        a = 1 - a;
        b = 1 - b;
      }
      auto at = [&](std::size_t i) { return V3(s.points[3 * s.tris[i]], s.points[3 * s.tris[i] + 1], s.points[3 * s.tris[i] + 2]); };
      q = at(t) + a * (at(t + 1) - at(t)) + b * (at(t + 2) - at(t));
    }
    else
    {
      const V3 x(r.unif(0, 3), r.unif(0, 3), r.unif(0, 3));
      if (!s.inside(x, 0))
        continue;
      q = s.A * x + s.b;
    }
    const V3 g = (q - lo) / h;
    bool found = false;
    for (int w = 0; w < 8 && !found; ++w)
    {
      std::array<int, 3> at{};
      for (int d = 0; d < 3; ++d)
        at[static_cast<std::size_t>(d)] = static_cast<int>(std::floor(g[d] + 0.5 + ((w >> d & 1) ? 1e-9 : -1e-9)));
      const auto it = kind.find(at);
      found = it != kind.end() && (k % 2 == 1 || it->second == VHACD::PRIMITIVE_ON_SURFACE);
    }
    EXPECT(found, "voxels", "a point " << (k % 2 == 0 ? "of the surface" : "inside") << " is in no voxel, at " << g.transpose() << " of " << dim);
  }
  c.event("voxelized");
  // clipped by a plane, nothing is lost
  VHACD::Plane pl{};
  pl.m_a = r.unif(-1, 1);
  pl.m_b = r.unif(-1, 1);
  pl.m_c = r.unif(-1, 1);
  const V3 n = V3(pl.m_a, pl.m_b, pl.m_c).normalized();
  pl.m_a = n[0];
  pl.m_b = n[1];
  pl.m_c = n[2];
  const V3 mid = (lo + hi) / 2 + (hi - lo).cwiseProduct(V3(r.unif(-0.5, 0.5), r.unif(-0.5, 0.5), r.unif(-0.5, 0.5)));
  pl.m_d = -n.dot(mid);
  VHACD::VoxelSet pos, neg, surf;
  set.Clip(pl, &pos, &neg);
  double vp = 0, vn = 0;
  set.ComputeClippedVolumes(pl, vp, vn);
  EXPECT(pos.GetNPrimitives() + neg.GetNPrimitives() == set.GetNPrimitives(), "clip", pos.GetNPrimitives() << " and " << neg.GetNPrimitives() << " of " << set.GetNPrimitives());
  EXPECT(std::abs(vp - pos.ComputeVolume()) <= 1e-9 * (vp + vn) && std::abs(vn - neg.ComputeVolume()) <= 1e-9 * (vp + vn), "clip", "the volumes are " << pos.ComputeVolume() << " and " << neg.ComputeVolume() << ", computed " << vp << " and " << vn);
  for (int side = 0; side < 2; ++side)
  {
    VHACD::VoxelSet& part = side == 0 ? pos : neg;
    std::size_t ons = 0;
    for (std::size_t i = 0; i < part.GetNPrimitives(); ++i)
    {
      const VHACD::Voxel& v = part.GetVoxels()[i];
      const auto it = kind.find({ v.m_coord[0], v.m_coord[1], v.m_coord[2] });
      const double d = n.dot(lo + h * V3(v.m_coord[0], v.m_coord[1], v.m_coord[2])) + pl.m_d;
      EXPECT(it != kind.end() && (side == 0 ? d > -1e-9 * h : d < 1e-9 * h), "clip", "a voxel on the wrong side: " << d / h);
      ons += v.m_data == VHACD::PRIMITIVE_ON_SURFACE ? 1 : 0;
      if (it != kind.end() && std::abs(std::abs(d) - h) > 1e-9 * h)
        EXPECT((v.m_data == VHACD::PRIMITIVE_ON_SURFACE) == (it->second == VHACD::PRIMITIVE_ON_SURFACE || std::abs(d) <= h), "clip", "a voxel at " << d / h << " is " << (v.m_data == VHACD::PRIMITIVE_ON_SURFACE ? "" : "not ") << "on the surface");
    }
    EXPECT(ons == part.GetNPrimitivesOnSurf() && part.GetNPrimitives() - ons == part.GetNPrimitivesInsideSurf(), "clip", "counts of a part");
    EXPECT(part.GetScale() == set.GetScale() && part.GetUnitVolume() == set.GetUnitVolume(), "clip", "scale of a part");
  }
  set.SelectOnSurface(&surf);
  EXPECT(surf.GetNPrimitives() == on && surf.GetNPrimitivesOnSurf() == on && surf.GetNPrimitivesInsideSurf() == 0, "surface", surf.GetNPrimitives() << " of " << on << " voxels on the surface");
  // hull of all surface voxels: contains all their corners
  VHACD::Mesh hull;
  set.ComputeConvexHull(hull);
  Hull x;
  for (std::size_t i = 0; i < hull.GetNPoints(); ++i)
    x.p.push_back(eig(hull.GetPoint(i)));
  for (std::size_t i = 0; i < hull.GetNTriangles(); ++i)
    x.t.push_back({ static_cast<std::uint32_t>(hull.GetTriangle(i)[0]), static_cast<std::uint32_t>(hull.GetTriangle(i)[1]), static_cast<std::uint32_t>(hull.GetTriangle(i)[2]) });
  double worst = 0;
  for (auto& [at, k] : kind)
  {
    HV corner[8];
    VHACD::Voxel v{};
    for (int d = 0; d < 3; ++d)
      v.m_coord[d] = static_cast<short>(at[static_cast<std::size_t>(d)]);
    set.GetPoints(v, corner);
    for (int w = 0; w < 8; ++w)
    {
      const V3 e = (eig(corner[w]) - lo) / h - V3(at[0], at[1], at[2]);
      EXPECT((e.cwiseAbs() - V3::Constant(0.5)).cwiseAbs().maxCoeff() < 1e-6, "corner", "a corner of a voxel is at " << e.transpose());
    }
    if (kind.size() < 600 || r.chance(0.1))
      worst = std::max(worst, x.height(eig(corner[r.range(0, 7)])));
  }
  EXPECT(worst <= 1e-2 * h, "coverage", "a corner of a voxel lies " << worst / h << " voxels outside of the hull");
  // rays
  VHACD::RaycastMesh* ray = VHACD::RaycastMesh::createRaycastMesh(np, s.points.data(), nt, s.tris.data());
  const double size = (hi - lo).norm();
  const V3 from = lo + (hi - lo).cwiseProduct(V3(r.unif(-0.5, 1.5), r.unif(-0.5, 1.5), r.unif(-0.5, 1.5))), to = from + size * V3(r.unif(-1, 1), r.unif(-1, 1), r.unif(-1, 1)),
           near = from + r.unif(0, 1) * (to - from);
  double hit[3], dist = -1;
  const bool has = ray->raycast(from.data(), to.data(), near.data(), hit, &dist);
  ray->release();
  // the reference: all intersections of the ray, away from edges
  const V3 dir = (to - from).normalized();
  double best = INFINITY;
  bool vague = false;
  V3 want = V3::Zero();
  for (std::size_t t = 0; t < s.tris.size(); t += 3)
  {
    auto at = [&](std::size_t i) { return V3(s.points[3 * s.tris[i]], s.points[3 * s.tris[i] + 1], s.points[3 * s.tris[i] + 2]); };
    Eigen::Matrix3d M;
    M << at(t + 1) - at(t), at(t + 2) - at(t), -dir;
    const double scale3 = (at(t + 1) - at(t)).norm() * (at(t + 2) - at(t)).norm();
    if (std::abs(M.determinant()) < 1e-4 * scale3 || std::abs(M.determinant()) < 3e-5)
    {
      vague = true;  // nearly parallel, or too small for the absolute threshold of the ray caster
      continue;
    }
    const V3 x2 = M.inverse() * (from - at(t));
    if (std::min({ x2[0], x2[1], 1 - x2[0] - x2[1] }) < 1e-9 || x2[2] < 1e-9 * size)
    {
      vague |= std::min({ x2[0], x2[1], 1 - x2[0] - x2[1] }) > -1e-9 && x2[2] > -1e-9 * size;
      continue;
    }
    const V3 q = from + x2[2] * dir;
    if ((q - near).norm() < best)
    {
      best = (q - near).norm();
      want = q;
    }
  }
  const double len = (to - from).norm();
  if (!vague && std::abs(best - len) > 1e-6 * size)
  {
    EXPECT(has == (best < len), "raycast", "a ray " << (has ? "hits" : "misses") << ", the nearest hit is " << best << " from the point, the ray " << len << " long");
    if (has && best < len)
      EXPECT((V3(hit[0], hit[1], hit[2]) - want).norm() <= 1e-6 * size && std::abs(dist - best) <= 1e-6 * size, "raycast", "hit at distance " << dist << ", expected " << best);
    c.event(has ? "ray_hit" : "ray_missed");
  }
}

FAMILY(decompositions, 30, 1200)
{
  mon::Rng& r = c.rng;
  static bool warm = false;
  if (!warm)
  {
    warm = true;
    mon::Rng w(1);
    const Solid s = solid(w);
    VHACD::IVHACD* v = VHACD::CreateVHACD();
    VHACD::IVHACD::Parameters p;
    p.m_resolution = 1000;
    p.m_planeDownsampling = p.m_convexhullDownsampling = 16;
    v->Compute(s.points.data(), static_cast<std::uint32_t>(s.points.size() / 3), s.tris.data(), static_cast<std::uint32_t>(s.tris.size() / 3), p);
    v->Clean();
    v->Release();
  }
  Solid s = solid(r);
  VHACD::IVHACD::Parameters p = parameters(r);
  const bool floats = r.chance(0.2), again = r.chance(0.35), cleaned = r.chance(0.5), clean_at_end = r.chance(0.5);
  Progress prog;
  Logger log;
  if (r.chance(0.6))
    p.m_callback = &prog;
  if (r.chance(0.3))
    p.m_logger = &log;
  const int cancel_at = p.m_callback != nullptr && r.chance(0.3) ? r.range(0, 40) : -1;
  c.note(s.points[0]);
  c.note(s.volume);
  c.note(p.m_maxConvexHulls);
  c.note(p.m_concavity);
  c.trace << s.tris.size() / 3 << " triangles, max hulls " << p.m_maxConvexHulls << " concavity " << p.m_concavity << " vertices " << p.m_maxNumVerticesPerCH << " pca " << p.m_pca
          << " project " << p.m_projectHullVertices << " approx " << p.m_convexhullApproximation << " res " << p.m_resolution << " cancel " << cancel_at;
  std::vector<float> fp(s.points.begin(), s.points.end());
  if (floats)
    s.points.assign(fp.begin(), fp.end());
  const std::vector<double> p0 = s.points;
  const std::vector<std::uint32_t> t0 = s.tris;
  const auto np = static_cast<std::uint32_t>(s.points.size() / 3), nt = static_cast<std::uint32_t>(s.tris.size() / 3);
  const std::uint64_t here = r.next();
  (void)here;
  auto life = [&](bool judged) {
    const std::size_t before = __sanitizer_get_current_allocated_bytes();
    {
      VHACD::IVHACD* v = VHACD::CreateVHACD();
      auto run = [&](int cancel) {
        prog = Progress();
        prog.v = v;
        prog.cancel_at = cancel;
        return floats ? v->Compute(fp.data(), np, s.tris.data(), nt, p) : v->Compute(s.points.data(), np, s.tris.data(), nt, p);
      };
      if (cancel_at >= 0)
      {
        const bool ok = run(cancel_at);
        const bool cancelled = prog.n > cancel_at;
        if (judged)
        {
          EXPECT(ok == !cancelled, "cancel", "Compute returns " << ok << " although it was " << (cancelled ? "" : "not ") << "cancelled");
          if (cancelled)
          {
            EXPECT(v->GetNConvexHulls() == 0, "cancel", v->GetNConvexHulls() << " hulls of a cancelled run");
            c.event("cancelled");
          }
        }
        if (cleaned)
          v->Clean();
      }
      const bool ok = run(-1);
      if (judged)
      {
        EXPECT(ok, "compute", "Compute of a solid fails");
        EXPECT(!prog.bad, "progress", "progress outside of 0..100 or without a stage");
        EXPECT(!prog.back, "progress", "the overall progress goes backwards");
        EXPECT(s.points == p0 && s.tris == t0, "input", "the input has been changed");
        const std::vector<Hull> first = hulls(*v);
        judge(c, s, p, first, *v);
        EXPECT(p.m_logger == nullptr || log.n > 0, "log", "nothing is logged");
        if (again)
        {
          if (cleaned)
          {
            v->Clean();
            EXPECT(v->GetNConvexHulls() == 0, "clean", "there are hulls after Clean");
          }
          run(-1);
          const std::vector<Hull> second = hulls(*v);
          EXPECT(second == first, "repeatable", "the same mesh gives " << first.size() << " and then " << second.size() << " hulls, or they differ");
          c.event("repeated");
        }
      }
      else if (again)
      {
        if (cleaned)
          v->Clean();
        run(-1);
      }
      if (clean_at_end)
        v->Clean();
      v->Release();
    }
    const std::size_t after = __sanitizer_get_current_allocated_bytes();
    return static_cast<long>(after) - static_cast<long>(before);
  };
  // what the case itself records stays allocated; only a second run without recording counts
  life(true);
  if (r.chance(0.5))
  {
    const long left = life(false);
    EXPECT(left <= 256, "leak", left << " bytes stay allocated after Release");
    c.event("released");
  }
  c.event("decomposed");
}
MON_MAIN
