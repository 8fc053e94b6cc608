// C24: convex hulls, polylines prepared for tessellation, and tessellations.
#include <algorithm>
#include <array>
#include "common.h"
#include "absl/types/span.h"
#include "ink/geometry/convex_hull.h"
#include "ink/geometry/internal/generic_tessellator.h"
#include "ink/geometry/internal/polyline_processing.h"
#include "ink/geometry/mesh.h"
#include "ink/geometry/point.h"
#include "ink/geometry/tessellator.h"
using namespace verif;
using ink::Point; namespace gi = ink::geometry_internal;
using IP = std::array<int, 2>; using IPs = std::vector<IP>; using Pts = std::vector<Point>;
static Pts Make(const IPs& p, float unit) { Pts r; for (auto& x : p) r.push_back({float(x[0]) * unit, float(x[1]) * unit}); return r; }
// back to units, if they are (nearly) whole
static IPs Units(absl::Span<const Point> p, float unit, bool& near, double tol) {
  IPs r; near = true;
  for (auto& x : p) {
    double a = double(x.x) / unit, b = double(x.y) / unit; if (!(std::fabs(a) < 1e8 && std::fabs(b) < 1e8)) { near = false; r.push_back({99999999, 99999999}); continue; }
    r.push_back({int(std::lround(a)), int(std::lround(b))}); if (std::fabs(a - double(r.back()[0])) > tol || std::fabs(b - double(r.back()[1])) > tol) near = false;
  }
  return r;
}
static IPs Encs(absl::Span<const Point> p) { IPs r; for (auto& x : p) r.push_back({Enc(x.x), Enc(x.y)}); return r; }
static double Away(Point q, absl::Span<const Point> p) {
  double best = 1e300;
  for (size_t i = 0; i + 1 < p.size(); ++i) {
    double ax = p[i].x, ay = p[i].y, ux = double(p[i + 1].x) - ax, uy = double(p[i + 1].y) - ay, n = ux * ux + uy * uy, s = n > 0 ? std::clamp(((q.x - ax) * ux + (q.y - ay) * uy) / n, 0.0, 1.0) : 0;
    best = std::min(best, std::hypot(ax + s * ux - q.x, ay + s * uy - q.y));
  }
  return best;
}
// sample points and how many triangles contain each: surely, at most
static double Cross(const double* a, const double* b, double x, double y) { return (b[0] - a[0]) * (y - a[1]) - (b[1] - a[1]) * (x - a[0]); }
static double FromEdge(const double* a, const double* b, double x, double y) {
  double ux = b[0] - a[0], uy = b[1] - a[1], n = ux * ux + uy * uy, s = n > 0 ? std::clamp(((x - a[0]) * ux + (y - a[1]) * uy) / n, 0.0, 1.0) : 0; return std::hypot(a[0] + s * ux - x, a[1] + s * uy - y);
}
struct Tri { double v[3][2]; };
static std::string Samples(const std::vector<Tri>& ts, int lo0, int hi0, int lo1, int hi1) {
  std::vector<J> xs;
  for (int cx = lo0 - 1; cx <= hi0; ++cx) for (int cy = lo1 - 1; cy <= hi1; ++cy) for (auto [dx, dy] : {std::pair<int, int>{3, 5}, {6, 1}}) {
    int x = 8 * cx + dx, y = 8 * cy + dy, lo = 0, hi = 0;
    for (auto& t : ts) {
      bool in = true, inside = true, beside = false; double area = Cross(t.v[0], t.v[1], t.v[2][0], t.v[2][1]), sg = area < 0 ? -1 : 1;
      for (int k = 0; k < 3; ++k) { const double *a = t.v[k], *b = t.v[(k + 1) % 3]; double d = sg * Cross(a, b, x, y), m = 0.06 * std::hypot(b[0] - a[0], b[1] - a[1]); if (!(d > m)) in = false; if (d < 0) inside = false; if (FromEdge(a, b, x, y) <= 0.06) beside = true; }
      lo += in; hi += inside || beside;
    }
    xs.push_back(J().A("s", IP{x, y}).I("lo", lo).I("hi", hi));
  }
  return J::Arr(xs);
}
// vertices that remember who their neighbours were
struct Marked { float x, y; int id; std::vector<int> around; };
struct MarkedHelper {
  using VertexType = Marked;
  static float GetX(const Marked& v) { return v.x; }
  static float GetY(const Marked& v) { return v.y; }
  static constexpr size_t GetXOffSetBytes() { return 0; }
  static constexpr size_t GetYOffSetBytes() { return 4; }
  static Marked CreateVertex(float x, float y) { return {x, y, -1, {}}; }
  static void PopulateNonPositionAttributes(absl::Span<const Marked> vs, absl::Span<const uint32_t> n, Marked& dst) { for (uint32_t i : n) dst.around.push_back(i == uint32_t(TESS_UNDEF) ? -1 : i >= vs.size() ? -2 : int(i)); }
};
static void Bounds(const IPs& c, int& a, int& b, int& d, int& e) { for (auto& q : c) { a = std::min(a, q[0] / 8); b = std::max(b, q[0] / 8); d = std::min(d, q[1] / 8); e = std::max(e, q[1] / 8); } }

int main() {
  Trace t; t.Auto(3000); t.Reset(); Rng g(Seed());
  // ------------------------------------------------------------------ hulls
  auto hull = [&](const IPs& p, float unit = 1) { bool near; IPs h = Units(ink::ConvexHull(Make(p, unit)), unit, near, 0); if (!near) h.push_back({123456, 0}); t(J("hull").A("p", p).A("h", h)); };
  // ------------------------------------------------------------------ polylines
  struct Q { int walk, conn, ratio, trim; };
  auto process = [&](const Pts& p, const Q& q, float unit) { return gi::ProcessPolylineForMeshCreation(p, float(q.walk) * unit, float(q.conn) * unit / 4, float(q.ratio) / 4, float(q.trim) / 4); };
  auto line = [&](const IPs& p, const Q& q, float unit = 1) {
    bool near; Pts r = process(Make(p, unit), q, unit); IPs u = Units(r, unit, near, 1e-3); bool twice = false; for (size_t i = 1; i < r.size(); ++i) twice |= r[i] == r[i - 1];
    t(J("line").B("twice", twice).A("p", p).A("r", u).B("near", near).Raw("q", J().I("walk", q.walk).I("conn", q.conn).I("ratio", q.ratio).I("trim", q.trim).Str()));
  };
  auto cut = [&](const IPs& p, float unit = 1) {
    const int K = 64; Pts r = gi::ProcessPolylineForMeshCreation(Make(p, unit), 0, 0, 0, 0); bool near; IPs u = Units(r, unit / K, near, 9);
    t(J("cut").A("p", p).A("r", u).I("k", K));
  };
  auto loose = [&](const Pts& p, float walk, float conn, float ratio, float trim) {
    Pts r = gi::ProcessPolylineForMeshCreation(p, walk, conn, ratio, trim); double size = 0; for (auto& x : p) size = std::max({size, std::fabs(double(x.x)), std::fabs(double(x.y))});
    auto on = [&](Point q) { return Away(q, p) <= size * 1e-5; };
    t(J("loose").A("p", Encs(p)).A("r", Encs(r)).A("on", std::vector<bool>{!r.empty() && on(r.front()), !r.empty() && on(r.back())}));
  };
  auto shorts = [&](const IPs& p) { bool near; Pts q = Make(p, 1); IPs r = Units(gi::ProcessPolylineForMeshCreation(q, 1, 2, 1, 1), 1, near, 0); t(J("short").A("p", p).A("r", r)); };
  // ------------------------------------------------------------------ tessellations
  auto mesh = [&](const IPs& p, float unit = 1) {      // points in eighths of a cell
    auto m = ink::CreateMeshFromPolyline(Make(p, unit)); std::vector<Tri> ts; bool formats = true;
    if (m.ok()) {
      formats = m->Format() == ink::MeshFormat() && m->TriangleCount() > 0 && m->VertexCount() >= 3;
      for (uint32_t i = 0; i < m->TriangleCount(); ++i) { Tri x; auto idx = m->TriangleIndices(i); for (size_t k = 0; k < 3; ++k) { if (idx[k] >= m->VertexCount()) { formats = false; continue; } Point q = m->VertexPosition(idx[k]); x.v[k][0] = double(q.x) / unit; x.v[k][1] = double(q.y) / unit; } ts.push_back(x); }
    }
    int a = 0, b = 0, d = 0, e = 0; Bounds(p, a, b, d, e);
    std::string code = m.ok() ? "ok" : m.status().code() == absl::StatusCode::kInvalidArgument ? "InvalidArgument" : "other";
    t(J("mesh").A("p", p).S("code", code).I("triangles", int(ts.size())).B("formats", formats).Raw("xs", Samples(ts, a, b, d, e)));
  };
  static const std::vector<std::pair<TessWindingRule, const char*>> rules = {{TESS_WINDING_ODD, "odd"}, {TESS_WINDING_NONZERO, "nonzero"}, {TESS_WINDING_POSITIVE, "positive"}, {TESS_WINDING_NEGATIVE, "negative"}, {TESS_WINDING_ABS_GEQ_TWO, "two"}};
  auto tess = [&](const std::vector<IPs>& cs, size_t rule, bool simple = false) {
    std::vector<std::vector<Marked>> in; int id = 0, a = 0, b = 0, d = 0, e = 0;
    for (auto& c : cs) { in.emplace_back(); Bounds(c, a, b, d, e); for (auto& q : c) in.back().push_back({float(q[0]), float(q[1]), id++, {}}); }
    std::vector<absl::Span<const Marked>> spans(in.begin(), in.end());
    auto r = simple ? gi::Tessellate<MarkedHelper>(absl::MakeConstSpan(in[0])) : gi::Tessellate<MarkedHelper>(absl::MakeConstSpan(spans), rules[rule].first);
    IPs vs; std::vector<std::vector<int>> added; std::vector<Tri> ts; std::vector<std::vector<int>> tris;
    for (auto& v : r.vertices) if (v.id >= 0) vs.push_back({int(v.x), int(v.y)}); else added.push_back(v.around);
    for (size_t i = 0; i + 2 < r.indices.size(); i += 3) {
      Tri x; tris.emplace_back();
      for (size_t k = 0; k < 3; ++k) { size_t at = r.indices[i + k]; tris.back().push_back(at < r.vertices.size() ? int(at) : -1); x.v[k][0] = at < r.vertices.size() ? double(r.vertices[at].x) : 0; x.v[k][1] = at < r.vertices.size() ? double(r.vertices[at].y) : 0; }
      ts.push_back(x);
    }
    if (r.indices.size() % 3) tris.push_back({-1, -1, -1});
    t(J("tess").A("cs", cs).S("rule", simple ? "nonzero" : rules[rule].second).A("vs", vs).A("ts", tris).A("new", added).Raw("xs", Samples(ts, a, b, d, e)));
  };
  static const Q qs[] = {{1, 5, 6, 2}, {3, 9, 4, 5}, {0, 0, 4, 4}};
  long nb = 0;
  for (auto& b : Behaviours()) {
    IPs p; for (size_t i = 1; i < b.size(); ++i) p.push_back({std::atoi(b[i][0].c_str()), std::atoi(b[i][1].c_str())});
    const std::string& op = b[0][0]; ++nb;
    if (op == "hull") hull(p, nb % 3 == 0 ? 0.25f : 1);
    else if (op == "line") { for (auto& q : qs) line(p, q, nb % 2 ? 1.0f : 8.0f); cut(p); }
    else if (op == "mesh") { mesh(p, nb % 2 ? 1.0f : 0.5f); if (!p.empty() && nb % 3 == 0) { tess({p}, size_t(nb / 3) % rules.size()); tess({p}, 1, true); } }
    else std::exit(3);
  }
  // hulls of more points, with many on common lines or at the same place
  hull({});
  for (int k = Scale(700, 12000); k > 0; --k) {
    int n = g.Chance(1, 2) ? g.Int(1, 12) : g.Int(5, 60), w = g.Chance(1, 3) ? 2 : g.Chance(1, 2) ? 10 : 900; IPs p; int sx = g.Int(-w, w), sy = g.Int(-w, w); bool skew = g.Chance(1, 4), column = g.Chance(1, 8);
    for (int i = 0; i < n; ++i) { int x = column ? 0 : g.Int(0, w), y = skew ? x * g.Int(0, 2) : g.Int(0, w); p.push_back({sx + x, sy + y}); if (g.Chance(1, 6)) p.push_back(g.Pick(p)); }
    hull(p, g.Pick(std::array<float, 3>{1, 0.125f, 64}));
  }
  for (int k = Scale(40, 500); k > 0; --k) {        // enough points for some to be left out first
    int kind = g.Int(0, 4), n = g.Int(499, 540); IPs p;
    for (int i = 0; i < n; ++i) switch (kind) {
      case 0: p.push_back({i % 23, i / 23}); break;
      case 1: p.push_back({g.Int(0, 30), g.Int(0, 30)}); break;
      case 2: { double a = i * 0.7 , r = g.Chance(1, 2) ? 900 : 899.3 * g.Unit(); p.push_back({int(r * std::cos(a)), int(r * std::sin(a))}); break; }
      case 3: p.push_back({g.Int(0, 900), 7}); if (g.Chance(1, 99)) p.back()[1] = g.Int(0, 14); break;
      default: { int x = g.Int(-400, 400); p.push_back({x, g.Int(0, 1) ? 450 - std::abs(x) : std::abs(x) - 450}); } }
    if (g.Chance(1, 2)) for (auto& q : p) std::swap(q[0], q[1]);
    if (g.Chance(1, 3)) std::reverse(p.begin(), p.end());
    hull(p);
  }
  // polylines
  for (const IPs& p : {IPs{}, IPs{{3, 4}}, IPs{{1, 2}, {5, 7}}}) shorts(p);
  for (int k = Scale(5000, 90000); k > 0; --k) {
    int w = g.Chance(1, 2) ? 5 : 14, n = g.Int(2, k % 5 == 0 ? 14 : 8); IPs p{{g.Int(0, w), g.Int(0, w)}}; bool vertical = g.Chance(1, 2);
    for (int i = 0; i < n; ++i, vertical = !vertical) { IP x = p.back(); int was = x[vertical]; while (x[vertical] == was) x[vertical] = g.Int(0, w); p.push_back(x); if (g.Chance(1, 12) && std::abs(x[vertical] - was) > 1) p.insert(p.end() - 1, [&] { IP m = x; m[vertical] = (x[vertical] + was) / 2; return m; }()); }
    if (g.Chance(1, 5)) p.back()[0] = p[0][0], p.push_back(p[0]);
    Q q{g.Int(0, 3) * g.Int(0, 5), g.Chance(1, 6) ? 0 : g.Int(1, 24), g.Int(0, 12), g.Int(0, 12)};
    if (g.Chance(1, 3)) q.ratio = q.trim = 1;
    line(p, q, g.Pick(std::array<float, 4>{1, 0.25f, 8, 0.0625f}));
  }
  for (int k = Scale(4000, 60000); k > 0; --k) {
    int w = g.Chance(1, 2) ? 4 : 12, n = g.Int(2, 9); IPs p; for (int i = 0; i <= n; ++i) { p.push_back({g.Int(0, w), g.Int(0, w)}); if (i && p[size_t(i)] == p[size_t(i) - 1]) { p.pop_back(); --i; } }
    cut(p, g.Pick(std::array<float, 3>{1, 0.25f, 16}));
  }
  for (int k = Scale(1500, 40000); k > 0; --k) {
    int n = g.Int(2, 30); Pts p; float s = std::ldexp(1.0f, g.Int(-10, 10)), x = 0, y = 0; bool grid = g.Chance(1, 2);
    for (int i = 0; i < n; ++i) { if (grid) p.push_back({float(g.Int(0, 4)), float(g.Int(0, 4))}); else { x += s * (g.Unit() - 0.5f); y += s * (g.Unit() - 0.5f); p.push_back({x, y}); } if (g.Chance(1, 8)) p.push_back(p.back()); if (g.Chance(1, 12)) p.push_back(g.Pick(p)); }
    loose(p, s * g.Unit(), g.Chance(1, 5) ? 0 : s * g.Unit(), g.Unit() * 4, g.Unit() * 4);
  }
  // tessellations
  for (const IPs& p : {IPs{}, IPs{{8, 8}}, IPs{{0, 0}, {8, 0}}, IPs{{0, 0}, {8, 8}, {16, 16}, {8, 8}}, IPs{{8, 8}, {8, 8}, {8, 8}}, IPs{{0, 0}, {0, 8}, {0, 24}, {0, 16}, {0, 0}}}) mesh(p);
  auto contour = [&](int n, int w) { IPs p; for (int i = 0; i < n; ++i) { p.push_back({8 * g.Int(0, w), 8 * g.Int(0, w)}); if (g.Chance(1, 15)) p.push_back(p.back()); if (g.Chance(1, 15)) p.push_back(g.Pick(p)); } return p; };
  for (int k = Scale(700, 12000); k > 0; --k) mesh(contour(g.Int(3, 8), g.Int(2, 6)), g.Pick(std::array<float, 4>{1, 0.0625f, 32, 1024}));
  for (int k = Scale(500, 9000); k > 0; --k) { std::vector<IPs> cs; for (int c = g.Int(1, 3); c > 0; --c) cs.push_back(contour(g.Int(3, 6), g.Int(2, 5))); tess(cs, size_t(g.Int(0, 4))); if (cs.size() == 1 && k % 4 == 0) tess(cs, 1, true); }
}
