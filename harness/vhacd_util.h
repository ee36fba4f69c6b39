// Meshes of known solids, and what a convex decomposition of them has to be.
#pragma once
#include "mon.h"
#include <Eigen/Geometry>
#include <array>
#include <map>
#include <vhacd/VHACD.h>
namespace vh
{
using V3 = Eigen::Vector3d;
/// a solid made of unit cells of a small grid, turned, stretched and moved
struct Solid
{
  static constexpr int N = 3;
  bool occ[N][N][N]{};
  Eigen::Matrix3d A;  // cell coordinates to space
  V3 b;
  std::vector<double> points;
  std::vector<std::uint32_t> tris;
  double volume{ 0 };
  bool convex{ false };
  bool at(int x, int y, int z) const { return x >= 0 && y >= 0 && z >= 0 && x < N && y < N && z < N && occ[x][y][z]; }
  bool inside(const V3& cell, double margin) const
  {
    // a ball (in cell coordinates) around the point is inside
    for (int k = 0; k < 27; ++k)
    {
      const V3 q = cell + margin * V3(k % 3 - 1, k / 3 % 3 - 1, k / 9 - 1);
      if (!at(static_cast<int>(std::floor(q.x())), static_cast<int>(std::floor(q.y())), static_cast<int>(std::floor(q.z()))))
        return false;
    }
    return true;
  }
};
inline Solid solid(mon::Rng& r)
{
  Solid s;
  const int kind = r.range(0, 4);
  int cells = 0;
  if (kind == 0)
  {
    const int a = r.range(1, 3), b = r.range(1, 3), c = r.range(1, 3);
    for (int x = 0; x < a; ++x)
      for (int y = 0; y < b; ++y)
        for (int z = 0; z < c; ++z)
          s.occ[x][y][z] = true, ++cells;
    s.convex = true;
  }
  else
  {
    // grown from a cell through faces
    int x = 1, y = 1, z = 1;
    s.occ[1][1][1] = true;
    cells = 1;
    const int want = r.range(2, 9);
    for (int k = 0; k < 200 && cells < want; ++k)
    {
      int q[3] = { x, y, z };
      q[r.range(0, 2)] += r.chance(0.5) ? 1 : -1;
      if (q[0] < 0 || q[1] < 0 || q[2] < 0 || q[0] > 2 || q[1] > 2 || q[2] > 2)
        continue;
      x = q[0];
      y = q[1];
      z = q[2];
      cells += s.occ[x][y][z] ? 0 : 1;
      s.occ[x][y][z] = true;
    }
  }
  const double size = r.pick(std::vector<double>{ 0.0005, 0.05, 1, 1, 30 });
  s.A = Eigen::Matrix3d::Identity();
  if (r.chance(0.6))
    s.A = Eigen::Quaterniond(r.unif(-1, 1), r.unif(-1, 1), r.unif(-1, 1), r.unif(-1, 1) + 1.2).normalized().toRotationMatrix();
  if (r.chance(0.25))
  {
    s.A *= size * (r.chance(0.5) ? 1.0 : 0.5);  // edges of the same length
    if (r.chance(0.2))
      s.A.col(r.range(0, 2)) *= 0.002;  // a plate
  }
  else
    s.A = s.A * V3(size * r.unif(0.5, 1.5), size * r.unif(0.5, 1.5), size * r.unif(0.5, 1.5)).asDiagonal();
  s.b = r.chance(0.3) ? V3::Zero() : V3(size * r.unif(-4, 4), size * r.unif(-4, 4), size * r.unif(-4, 4));
  s.volume = cells * std::abs(s.A.determinant());
  std::map<std::array<int, 3>, std::uint32_t> ids;
  auto id = [&](const int* q) {
    const auto [it, fresh] = ids.emplace(std::array<int, 3>{ q[0], q[1], q[2] }, static_cast<std::uint32_t>(ids.size()));
    if (fresh)
    {
      const V3 p = s.A * V3(q[0], q[1], q[2]) + s.b;
      s.points.insert(s.points.end(), { p.x(), p.y(), p.z() });
    }
    return it->second;
  };
  for (int c = 0; c < 27; ++c)
  {
    const int x[3] = { c % 3, c / 3 % 3, c / 9 };
    if (!s.at(x[0], x[1], x[2]))
      continue;
    for (int f = 0; f < 6; ++f)
    {
      const int d = f / 2, up = f % 2;
      int n[3] = { x[0], x[1], x[2] };
      n[d] += up ? 1 : -1;
      if (s.at(n[0], n[1], n[2]))
        continue;
      std::uint32_t i[4];
      for (int k = 0; k < 4; ++k)
      {
        int q[3] = { x[0], x[1], x[2] };
        q[d] += up;
        q[(d + 1) % 3] += (k == 1 || k == 2) ? 1 : 0;
        q[(d + 2) % 3] += k >= 2 ? 1 : 0;
        i[k] = id(q);
      }
      if (up)
        s.tris.insert(s.tris.end(), { i[0], i[1], i[2], i[0], i[2], i[3] });
      else
        s.tris.insert(s.tris.end(), { i[0], i[2], i[1], i[0], i[3], i[2] });
    }
  }
  return s;
}
struct Hull
{
  std::vector<V3> p;
  std::vector<std::array<std::uint32_t, 3>> t;
  double volume{ 0 };
  V3 center;
  bool operator==(const Hull& o) const { return p == o.p && t == o.t && volume == o.volume && center == o.center; }
  /// largest height of a point over a face (negative: inside)
  double height(const V3& q) const
  {
    double h = -INFINITY;
    for (auto& f : t)
    {
      const V3 n = (p[f[1]] - p[f[0]]).cross(p[f[2]] - p[f[0]]);
      if (n.norm() > 0)
        h = std::max(h, n.normalized().dot(q - p[f[0]]));
    }
    return h;
  }
};
inline std::vector<Hull> hulls(const VHACD::IVHACD& v)
{
  std::vector<Hull> o;
  for (std::uint32_t i = 0; i < v.GetNConvexHulls(); ++i)
  {
    VHACD::IVHACD::ConvexHull h{};
    v.GetConvexHull(i, h);
    Hull x;
    for (std::uint32_t k = 0; k < h.m_nPoints; ++k)
      x.p.emplace_back(h.m_points[3 * k], h.m_points[3 * k + 1], h.m_points[3 * k + 2]);
    for (std::uint32_t k = 0; k < h.m_nTriangles; ++k)
      x.t.push_back({ h.m_triangles[3 * k], h.m_triangles[3 * k + 1], h.m_triangles[3 * k + 2] });
    x.volume = h.m_volume;
    x.center = V3(h.m_center[0], h.m_center[1], h.m_center[2]);
    o.push_back(x);
  }
  return o;
}
inline VHACD::IVHACD::Parameters parameters(mon::Rng& r)
{
  VHACD::IVHACD::Parameters p;
  p.m_resolution = static_cast<std::uint32_t>(r.pick(std::vector<int>{ 1000, 10000, 30000 }));
  p.m_concavity = r.pick(std::vector<double>{ 0.0005, 0.001, 0.01, 0.1 });
  p.m_planeDownsampling = static_cast<std::uint32_t>(r.pick(std::vector<int>{ 4, 8, 16 }));
  p.m_convexhullDownsampling = static_cast<std::uint32_t>(r.pick(std::vector<int>{ 4, 8, 16 }));
  p.m_alpha = r.pick(std::vector<double>{ 0, 0.05, 0.3 });
  p.m_beta = r.pick(std::vector<double>{ 0, 0.05, 0.3 });
  p.m_pca = r.chance(0.3) ? 1 : 0;
  p.m_maxNumVerticesPerCH = static_cast<std::uint32_t>(r.pick(std::vector<int>{ 0, 5, 8, 12, 64, 1000 }));
  p.m_minVolumePerCH = r.pick(std::vector<double>{ 0, 0.0001, 0.01 });
  p.m_convexhullApproximation = r.chance(0.7) ? 1 : 0;
  p.m_maxConvexHulls = static_cast<std::uint32_t>(r.pick(std::vector<int>{ 1, 2, 3, 5, 8, 16 }));
  p.m_projectHullVertices = r.chance(0.5);
  return p;
}
}  // namespace vh
