// Integer-coded plane shapes (see specs/PlaneGeometry.tla), their real counterparts, and random generators for them.
#ifndef VERIF_DRIVERS_PLANE_SHAPES_H_
#define VERIF_DRIVERS_PLANE_SHAPES_H_
#include <algorithm>
#include <array>
#include <map>
#include <set>
#include <variant>
#include <vector>
#include "common.h"
#include "ink/geometry/affine_transform.h"
#include "ink/geometry/angle.h"
#include "ink/geometry/mutable_mesh.h"
#include "ink/geometry/partitioned_mesh.h"
#include "ink/geometry/point.h"
#include "ink/geometry/quad.h"
#include "ink/geometry/rect.h"
#include "ink/geometry/segment.h"
#include "ink/geometry/triangle.h"
namespace verif {
using Shape = std::vector<int>;
using Real = std::variant<ink::Point, ink::Segment, ink::Triangle, ink::Rect, ink::Quad>;
// The grid's place in the plane: (x, y) -> (u x + dx, u y + dy); exact for the units and offsets used.
struct Place { float u = 1, dx = 0, dy = 0; ink::Point operator()(int x, int y) const { return {u * x + dx, u * y + dy}; } };
inline ink::Quad RealQuad(const Shape& s, Place p) {
  float w = 2.f * s[3] * s[7], h = 2.f * s[4] * s[7];
  return ink::Quad::FromCenterDimensionsRotationAndShear(p(s[1], s[2]), w * p.u, h * p.u, s[6] == 0 && s[5] == 1 ? ink::Angle::Radians(0) : ink::Angle::Radians(std::atan2(float(s[6]), float(s[5]))), float(s[8]));
}
// variant v: an equivalent way to write the shape (other vertex order)
inline int Variants(const Shape& s) { int n[] = {1, 2, 6, 1, 2}; return n[s[0]]; }
inline Real RealShape(const Shape& s, Place p, int v = 0) {
  switch (s[0]) {
    case 0: return p(s[1], s[2]);
    case 1: return v ? ink::Segment{p(s[3], s[4]), p(s[1], s[2])} : ink::Segment{p(s[1], s[2]), p(s[3], s[4])};
    case 2: {
      static const int perm[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {2, 1, 0}, {1, 0, 2}};
      ink::Point q[3] = {p(s[1], s[2]), p(s[3], s[4]), p(s[5], s[6])};
      return ink::Triangle{q[perm[v][0]], q[perm[v][1]], q[perm[v][2]]};
    }
    case 3: return ink::Rect::FromTwoPoints(p(s[1], s[2]), p(s[3], s[4]));
    default: { Shape t = s; if (v) t[4] = -t[4]; return RealQuad(t, p); }  // a negative height with the same shear is another quad unless shear is 0
  }
}
inline int QuadVariants(const Shape& s) { return s[0] == 4 && s[8] != 0 ? 1 : Variants(s); }
inline Shape RandomShape(Rng& g, int kind, int lo, int hi, int snap = 1) {
  auto c = [&] { return g.Int(lo, hi) / snap * snap; };
  Shape s{kind};
  switch (kind) {
    case 0: s.push_back(c()); s.push_back(c()); break;
    case 1: case 2: {
      int n = kind == 1 ? 2 : 3;
      for (int i = 0; i < 2 * n; ++i) s.push_back(c());
      if (g.Chance(1, 10)) { int a = g.Int(0, n - 1), b = g.Int(0, n - 1); s[1 + 2 * a] = s[1 + 2 * b]; s[2 + 2 * a] = s[2 + 2 * b]; }
      if (kind == 2 && g.Chance(1, 8)) { s[5] = 2 * s[3] - s[1]; s[6] = 2 * s[4] - s[2]; if (std::max({s[5], s[6]}) > hi || std::min({s[5], s[6]}) < lo) s[5] = s[1], s[6] = s[2]; }
      break;
    }
    case 3: {
      int x0 = c(), y0 = c(), x1 = c(), y1 = c();
      if (g.Chance(1, 6)) x1 = x0;
      if (g.Chance(1, 6)) y1 = y0;
      s.insert(s.end(), {std::min(x0, x1), std::min(y0, y1), std::max(x0, x1), std::max(y0, y1)}); break;
    }
    default: {
      static const int dir[][3] = {{1, 0, 1}, {1, 0, 1}, {1, 0, 1}, {0, 1, 1}, {-1, 0, 1}, {0, -1, 1}, {3, 4, 5}, {-4, 3, 5}, {4, -3, 5}, {-3, -4, 5}, {5, 12, 13}};
      for (;;) {
        const int* d = dir[g.Int(0, 10)];
        int big = d[2] > 1 ? 1 : std::max(1, (hi - lo) / 4);
        int k = g.Int(0, big), m = g.Int(-big, big), sh = g.Chance(1, 2) ? 0 : g.Int(-2, 2), cx = c(), cy = c();
        int ux = k * d[0], uy = k * d[1], vx = m * (sh * d[0] - d[1]), vy = m * (sh * d[1] + d[0]);
        bool ok = true;
        for (int a : {-1, 1}) for (int b : {-1, 1}) { int x = cx + a * ux + b * vx, y = cy + a * uy + b * vy; ok = ok && x >= lo && x <= hi && y >= lo && y <= hi; }
        if (!ok) { if (g.Chance(1, 40)) { s.insert(s.end(), {cx, cy, 0, 0, 1, 0, 1, 0}); break; } continue; }
        s.insert(s.end(), {cx, cy, k, m, d[0], d[1], d[2], sh}); break;
      }
    }
  }
  return s;
}
// ---- meshes ----
using Tris = std::vector<std::array<int, 6>>;
inline Tris RandomTris(Rng& g, int n, int lo, int hi) {
  Tris t;
  for (int i = 0; i < n; ++i) {
    Shape s = RandomShape(g, 2, lo, hi);
    if (!t.empty() && g.Chance(1, 2)) { auto& o = t.back(); int k = g.Int(0, 2); s[1] = o[2 * k]; s[2] = o[2 * k + 1]; if (g.Chance(1, 2)) { k = (k + 1) % 3; s[3] = o[2 * k]; s[4] = o[2 * k + 1]; } }
    t.push_back({s[1], s[2], s[3], s[4], s[5], s[6]});
  }
  return t;
}
inline ink::MeshFormat PlainFormat(bool wide) {
  return ink::MeshFormat::Create({{ink::MeshFormat::AttributeType::kFloat2Unpacked, ink::MeshFormat::AttributeId::kPosition}}, wide ? ink::MeshFormat::IndexFormat::k32BitUnpacked16BitPacked : ink::MeshFormat::IndexFormat::k16BitUnpacked16BitPacked).value();
}
inline ink::MutableMesh BuildMesh(Rng& g, const Tris& t, Place p) {
  ink::MutableMesh m(PlainFormat(g.Chance(1, 2)));
  std::map<std::pair<int, int>, std::vector<uint32_t>> at;
  bool share = g.Chance(3, 4);
  for (auto& x : t) {
    std::array<uint32_t, 3> idx;
    for (int k = 0; k < 3; ++k) {
      auto& have = at[{x[2 * k], x[2 * k + 1]}];
      uint32_t v = UINT32_MAX;
      if (share) for (uint32_t h : have) { bool used = false; for (int j = 0; j < k; ++j) used |= idx[j] == h; if (!used) v = h; }
      if (v == UINT32_MAX) { v = m.VertexCount(); m.AppendVertex(p(x[2 * k], x[2 * k + 1])); have.push_back(v); }
      idx[k] = v;
    }
    m.AppendTriangleIndices(idx);
  }
  if (g.Chance(1, 4)) m.AppendVertex(p(50, 50));  // belongs to no triangle
  return m;
}
// Splits the triangles over one to three render groups.
inline ink::PartitionedMesh BuildShape(Rng& g, const Tris& t, Place p) {
  if (t.empty()) {
    switch (g.Int(0, 2)) { case 0: return {}; case 1: return ink::PartitionedMesh::WithEmptyGroups(uint32_t(g.Int(0, 2))); default: { ink::MutableMesh none(PlainFormat(true)); return *ink::PartitionedMesh::FromMutableMesh(none); } }
  }
  size_t n = std::min<size_t>(t.size(), size_t(g.Int(1, 3)));
  std::vector<ink::MutableMesh> ms; std::vector<ink::PartitionedMesh::MutableMeshGroup> gs;
  size_t from = 0;
  for (size_t i = 0; i < n; ++i) { size_t to = i + 1 == n ? t.size() : std::max(from + 1, t.size() * (i + 1) / n); ms.push_back(BuildMesh(g, Tris(t.begin() + from, t.begin() + to), p)); from = to; }
  for (auto& m : ms) gs.push_back({&m, {}, {}, {}});
  auto r = ink::PartitionedMesh::FromMutableMeshGroups(gs);
  if (!r.ok()) { std::fprintf(stderr, "mesh not built: %s\n", std::string(r.status().message()).c_str()); std::exit(3); }
  return *r;
}
using Mat = std::array<int, 6>;
inline Mat RandomMat(Rng& g) {
  static const Mat some[] = {{1, 0, 0, 0, 1, 0}, {1, 0, 3, 0, 1, -2}, {2, 0, 0, 0, 1, 0}, {1, 0, 1, 0, 4, 0}, {-1, 0, 0, 0, 1, 0}, {0, 1, 0, 1, 0, 0}, {0, -1, 2, 1, 0, 0}, {1, 1, 0, 0, 1, 0}, {1, 0, 0, 2, 1, 1}, {1, 1, 0, -1, 1, 0}, {2, 1, 0, 1, 1, 0}, {1, 2, -1, 1, 3, 0},
                             {0, 0, 0, 0, 0, 0}, {1, 0, 0, 0, 0, 0}, {0, 0, 2, 0, 1, 0}, {1, 1, 0, 1, 1, 0}, {1, -1, 0, -1, 1, 3}, {2, 1, 0, 4, 2, 0}, {0, 1, 0, 0, 0, 2}, {1, 2, 0, 0, 0, 1}, {0, 0, 0, 1, -1, 0}};
  if (g.Chance(1, 3)) return some[0];
  if (g.Chance(2, 3)) { Mat m = g.Pick(some); if (g.Chance(1, 3)) { m[2] += g.Int(-4, 4); m[5] += g.Int(-4, 4); } return m; }
  return {g.Int(-2, 2), g.Int(-2, 2), g.Int(-4, 4), g.Int(-2, 2), g.Int(-2, 2), g.Int(-4, 4)};
}
inline ink::AffineTransform RealMat(const Mat& m, Place p) { return ink::AffineTransform(m[0], m[1], m[2] * p.u, m[3], m[4], m[5] * p.u); }
}  // namespace verif
#endif
