// C15, C16, C18, C19: spatial predicates, distances, mesh queries and coverage on integer-coded shapes.
#include "plane_shapes.h"
#include "ink/geometry/distance.h"
#include "ink/geometry/intersects.h"
using namespace verif;
using ink::PartitionedMesh;
using Pair = std::pair<Shape, Shape>;
static Trace* T;
static bool Hit(const Real& a, const Real& b) { return std::visit([](const auto& x, const auto& y) { return ink::Intersects(x, y); }, a, b); }
static float Gap(const Real& a, const Real& b) { return std::visit([](const auto& x, const auto& y) { return ink::Distance(x, y); }, a, b); }
static const Place kPlaces[] = {{1, 0, 0}, {1.f / 256, 0, 0}, {1024, 0, 0}, {1, 300, -700}, {0x1p-45f, 0, 0}, {0x1p40f, 0, 0}, {0.5f, -512, 2048}};
static void OnePair(const Shape& a, const Shape& b, bool all, const Place* places, int np, bool dist) {
  std::set<int> is, zs; std::set<long> ds; bool sym = true;
  for (int k = 0; k < np; ++k) {
    const Place& p = places[k];
    int va = QuadVariants(a), vb = QuadVariants(b);
    for (int i = 0; i < va; ++i) for (int j = 0; j < vb; ++j) {
      if (!all && (i + j + k) % 3 && (i || j)) continue;
      Real x = RealShape(a, p, i), y = RealShape(b, p, j);
      if (!dist) { is.insert(Hit(x, y)); is.insert(Hit(y, x)); }
      else {
        float d = Gap(x, y), e = Gap(y, x);
        sym = sym && d >= 0 && e >= 0 && std::abs(d - e) <= 1e-5f * std::max(d, e) + 1e-6f * (32 * p.u + std::abs(p.dx) + std::abs(p.dy));   // (touching is up to rounding)
        for (float f : {d, e}) { ds.insert(std::lround(std::min(512.0 * f / p.u, 2e6))); zs.insert(f == 0); }
      }
    }
  }
  J j(dist ? "dist" : "pair"); j.A("a", a).A("b", b);
  if (!dist) (*T)(j.Raw("is", [&] { std::string s = "["; for (int v : is) s += (s.size() > 1 ? "," : "") + std::string(v ? "true" : "false"); return s + "]"; }()));
  else (*T)(j.A("d", ds).Raw("z", [&] { std::string s = "["; for (int v : zs) s += (s.size() > 1 ? "," : "") + std::string(v ? "true" : "false"); return s + "]"; }()).B("sym", sym));
}
static void Pairs(bool dist) {
  int every = 0, share = dist ? Scale(3, 1) : Scale(2, 1);
  for (auto& beh : Behaviours()) {
    if (int(every++ + Seed()) % share) continue;
    Shape s[2];
    for (int k = 0; k < 2; ++k) for (auto& w : beh[k]) s[k].push_back(std::stoi(w));
    // rectangles also appear as quadrilaterals
    OnePair(s[0], s[1], true, kPlaces + (every % 3), dist ? 2 : 3, dist);
    if (s[1][0] == 3 && (s[1][1] + s[1][3]) % 2 == 0 && (s[1][2] + s[1][4]) % 2 == 0) {
      Shape q{4, (s[1][1] + s[1][3]) / 2, (s[1][2] + s[1][4]) / 2, (s[1][3] - s[1][1]) / 2, (s[1][4] - s[1][2]) / 2, 1, 0, 1, 0};
      OnePair(s[0], q, true, kPlaces, 2, dist);
    }
  }
  Rng g(Seed() * 77 + dist);
  int n = dist ? Scale(6000, 120000) : Scale(20000, 400000);
  for (int i = 0; i < n; ++i) {
    int lim = dist ? 12 : 20, r = g.Chance(1, 2) ? 4 : lim, snap = g.Chance(1, 4) ? 2 : 1;
    Shape a = RandomShape(g, g.Int(0, 4), -r, r, snap), b = RandomShape(g, g.Int(0, 4), -r, r, snap);
    OnePair(a, b, false, kPlaces + g.Int(0, 4), g.Int(1, 2), dist);
  }
}
// ---- meshes ----
static std::string TrisJson(const Tris& t) { return J::Arr(t); }
// The shape's triangles as it reports them (in order), on the grid.
static Tris Reported(const PartitionedMesh& s, Place p) {
  Tris out;
  for (auto& m : s.Meshes()) for (uint32_t i = 0; i < m.TriangleCount(); ++i) {
    auto t = m.GetTriangle(i);
    auto c = [&](float v, float d) { return int(std::lround((v - d) / p.u)); };
    out.push_back({c(t.p0.x, p.dx), c(t.p0.y, p.dy), c(t.p1.x, p.dx), c(t.p1.y, p.dy), c(t.p2.x, p.dx), c(t.p2.y, p.dy)});
  }
  return out;
}
template <typename F> static void WithQuery(const Real* q, const PartitionedMesh* m, F f) { if (m) f(*m); else std::visit([&](const auto& x) { f(x); }, *q); }
static void MeshMeets() {
  Rng g(Seed() * 31 + 5);
  for (int i = 0, n = Scale(20000, 300000); i < n; ++i) {
    Place p = g.Chance(1, 2) ? kPlaces[0] : kPlaces[g.Int(1, 2)];
    Tris t = RandomTris(g, g.Chance(1, 20) ? 0 : g.Int(1, 6), 0, g.Chance(1, 2) ? 4 : 9);
    PartitionedMesh s = BuildShape(g, t, p);
    if (g.Chance(1, 3)) s.InitializeSpatialIndex();
    Mat m = RandomMat(g);
    J j("meet"); j.Raw("tris", TrisJson(t)).A("m", m);
    if (g.Chance(1, 3)) {
      Tris u = RandomTris(g, g.Chance(1, 20) ? 0 : g.Int(1, 5), 0, g.Chance(1, 2) ? 4 : 9); Mat qm = RandomMat(g);
      PartitionedMesh o = BuildShape(g, u, p);
      bool r = g.Chance(1, 2) ? ink::Intersects(s, RealMat(m, p), o, RealMat(qm, p)) : ink::Intersects(o, RealMat(qm, p), s, RealMat(m, p));
      (*T)(j.A("q", Shape{}).Raw("qt", TrisJson(u)).A("qm", qm).B("r", r));
    } else {
      Shape q = RandomShape(g, g.Int(0, 4), -4, 12); Real x = RealShape(q, p, g.Int(0, QuadVariants(q) - 1));
      bool r = std::visit([&](const auto& y) { return g.Chance(1, 2) ? ink::Intersects(s, RealMat(m, p), y) : ink::Intersects(y, s, RealMat(m, p)); }, x);
      (*T)(j.A("q", q).Raw("qt", "[]").A("qm", Mat{1, 0, 0, 0, 1, 0}).B("r", r));
    }
  }
}
struct Scene { Place p; Tris t; PartitionedMesh s; Mat m; Shape q; Tris u; PartitionedMesh o; std::optional<Real> real; };
static Scene MakeScene(Rng& g, bool area) {
  Scene c;
  c.p = g.Chance(1, 2) ? kPlaces[0] : kPlaces[g.Int(1, 2)];
  bool many = g.Chance(1, 12);
  c.t = RandomTris(g, g.Chance(1, 20) ? 0 : many ? g.Int(17, 60) : g.Int(1, 6), 0, many ? 16 : g.Chance(1, 2) ? 4 : 9);
  c.s = BuildShape(g, c.t, c.p);
  c.m = RandomMat(g);
  if (g.Chance(1, 4)) { c.u = RandomTris(g, g.Chance(1, 20) ? 0 : g.Int(1, 5), 0, g.Chance(1, 2) ? 4 : 9); c.o = BuildShape(g, c.u, c.p); }
  else { c.q = RandomShape(g, g.Int(area ? 2 : 0, 4), -3, many ? 18 : 10); c.real = RealShape(c.q, c.p, g.Int(0, QuadVariants(c.q) - 1)); }
  return c;
}
static J Start(const char* op, const Scene& c) { J j(op); j.Raw("tris", TrisJson(Reported(c.s, c.p))).A("m", c.m).A("q", c.q).Raw("qt", TrisJson(c.u)); return j; }
static std::vector<int> Visit(const Scene& c, const PartitionedMesh& s, int after) {
  std::vector<int> first; int n = 0;
  for (auto& m : s.Meshes()) { first.push_back(n); n += int(m.TriangleCount()); }
  std::vector<int> seen;
  auto visitor = [&](PartitionedMesh::TriangleIndexPair i) {
    bool ok = i.mesh_index < s.Meshes().size() && i.triangle_index < s.Meshes()[i.mesh_index].TriangleCount();
    seen.push_back(ok ? first[i.mesh_index] + int(i.triangle_index) + 1 : 0);
    return after && int(seen.size()) >= after ? PartitionedMesh::FlowControl::kBreak : PartitionedMesh::FlowControl::kContinue;
  };
  WithQuery(c.real ? &*c.real : nullptr, c.q.empty() ? &c.o : nullptr, [&](const auto& q) {
    if (c.m == Mat{1, 0, 0, 0, 1, 0} && (c.t.size() + c.q.size()) % 2) s.VisitIntersectedTriangles(q, visitor);
    else s.VisitIntersectedTriangles(q, visitor, RealMat(c.m, c.p));
  });
  return seen;
}
static void Visits() {
  Rng g(Seed() * 131 + 9);
  for (int i = 0, n = Scale(13000, 250000); i < n; ++i) {
    Scene c = MakeScene(g, false);
    bool init = g.Chance(1, 2);
    PartitionedMesh copy = c.s;
    if (init) c.s.InitializeSpatialIndex();
    int after = g.Chance(1, 3) ? g.Int(1, 4) : 0;
    auto seen = Visit(c, g.Chance(1, 2) ? c.s : copy, after);
    (*T)(Start("visit", c).I("after", after).A("seen", seen));
  }
  // one mesh with more triangles than 16 bits count
  for (auto [w, h] : {std::pair(200, 170), std::pair(260, 256)}) {
    ink::MutableMesh m(PlainFormat(true));
    for (int y = 0; y <= h; ++y) for (int x = 0; x <= w; ++x) m.AppendVertex({float(x), float(y)});
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
      uint32_t v = uint32_t(y * (w + 1) + x), o = uint32_t(w + 1);
      m.AppendTriangleIndices({v, v + 1, v + o + 1}); m.AppendTriangleIndices({v, v + o + 1, v + o});
    }
    auto s = PartitionedMesh::FromMutableMesh(m);
    if (!s.ok()) { std::fprintf(stderr, "%s\n", std::string(s.status().message()).c_str()); std::exit(3); }
    for (int k = 0; k < Scale(25, 300); ++k) {
      int x = k % 5 == 0 ? w - g.Int(0, 4) : g.Int(0, w), y = k % 4 == 0 ? h - g.Int(0, 3) : k % 4 == 1 ? g.Int(0, 3) : g.Int(0, h);
      Shape q = RandomShape(g, g.Int(0, 3), 0, 5);
      for (size_t c = 1; c < q.size(); ++c) q[c] += c % 2 ? x : y;
      std::vector<std::array<int, 6>> seen;
      std::visit([&](const auto& r) {
        s->VisitIntersectedTriangles(r, [&](PartitionedMesh::TriangleIndexPair i) {
          auto t = s->Meshes()[i.mesh_index].GetTriangle(i.triangle_index);
          seen.push_back({int(t.p0.x), int(t.p0.y), int(t.p1.x), int(t.p1.y), int(t.p2.x), int(t.p2.y)});
          return PartitionedMesh::FlowControl::kContinue;
        });
      }, RealShape(q, Place{}));
      (*T)(J("grid").I("w", w).I("h", h).A("q", q).A("seen", seen));
    }
  }
}
static void Covers() {
  Rng g(Seed() * 17 + 3);
  for (int i = 0, n = Scale(13000, 250000); i < n; ++i) {
    Scene c = MakeScene(g, true);
    if (g.Chance(1, 30)) { Tris t = RandomTris(g, g.Int(1, 3), 0, 6); for (auto& x : t) { x[4] = x[0]; x[5] = x[1]; } c.t = t; c.s = BuildShape(g, t, c.p); }
    Tris rep = Reported(c.s, c.p);
    long total = 0;
    for (auto& t : rep) total += std::labs(long(t[2] - t[0]) * (t[5] - t[1]) - long(t[3] - t[1]) * (t[4] - t[0]));
    float cov = 0; std::vector<std::array<int, 3>> thr;
    auto run = [&](const auto& q) {
      if constexpr (requires { c.s.Coverage(q, RealMat(c.m, c.p)); }) {
        auto m = RealMat(c.m, c.p);
        std::vector<std::pair<int, int>> nd = {{-1, 2}, {0, 1}, {1, 4}, {1, 2}, {3, 4}, {1, 1}, {5, 4}};
        // the coverage itself, where it is a dyadic number, and its neighbours
        auto query = [&](int a, int b) { thr.push_back({a, b, c.s.CoverageIsGreaterThan(q, float(a) / float(b), m)}); };
        bool first = g.Chance(1, 2);
        if (first) for (auto [a, b] : nd) query(a, b);
        cov = c.s.Coverage(q, m);
        if (!first) for (auto [a, b] : nd) query(a, b);
        float x = cov * 1024; if (x >= 0 && x == std::floor(x) && x <= 4096) for (int d : {-1, 0, 1}) query(int(x) + d, 1024);
      } else std::exit(3);
    };
    if (c.q.empty()) run(c.o);
    else switch (c.q[0]) { case 2: run(std::get<ink::Triangle>(*c.real)); break; case 3: run(std::get<ink::Rect>(*c.real)); break; default: run(std::get<ink::Quad>(*c.real)); }
    std::string th = "[";
    for (auto& x : thr) th += (th.size() > 1 ? ",[" : "[") + std::to_string(x[0]) + "," + std::to_string(x[1]) + "," + (x[2] ? "true]" : "false]");
    J j = Start("cover", c);
    bool nan = std::isnan(cov);
    (*T)(j.B("nan", nan).B("unit", cov >= 0 && cov <= 1).I("cov", nan ? -1 : std::lround(double(cov) * double(total) * 16)).Raw("thr", th + "]"));
  }
}
int main() {
  Trace t; T = &t; t.Auto(500); t.Reset();
  std::string prop = Env("PROP", "C18");
  if (prop == "C18") { Pairs(false); MeshMeets(); }
  else if (prop == "C19") Pairs(true);
  else if (prop == "C15") Visits();
  else if (prop == "C16") Covers();
  else return 3;
}
