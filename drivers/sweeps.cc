// C36: what the extruder's triangles cover, against the area its tip sweeps. Lengths in units of 1/32 of the brush epsilon.
#include <cmath>
#include "common.h"
#include "ink/strokes/internal/brush_tip_extruder.h"
#include "ink/strokes/internal/brush_tip_shape.h"
#include "ink/strokes/internal/stroke_vertex.h"
using namespace verif;
using ink::strokes_internal::BrushTipState;
using IP = std::array<int, 2>; using IR = std::array<int, 3>; using D = double;
struct Pt { D x, y; };
static const int kEps = 32;
struct Tip { int w, h, round; IR rot, slant; int pinch;
  J Json() const { return J().I("w", w).I("h", h).I("round", round).A("rot", rot).A("slant", slant).I("pinch", pinch); } };
static BrushTipState State(const Tip& t, IP p, float u) { return {.position = {float(p[0]) * u, float(p[1]) * u}, .width = float(t.w) * u, .height = float(t.h) * u, .percent_radius = float(t.round) / 8, .rotation = ink::Angle::Radians(float(std::atan2(t.rot[1], t.rot[0]))), .slant = ink::Angle::Radians(float(std::atan2(t.slant[1], t.slant[0]))), .pinch = float(t.pinch) / 8}; }
static BrushTipState Round(IR c, float u) { return State({2 * c[2], 2 * c[2], 8, {1, 0, 1}, {1, 0, 1}, 0}, {c[0], c[1]}, u); }
// The extruder with its mesh.
struct Pen {
  float u; ink::MutableMesh mesh{ink::strokes_internal::StrokeVertex::FullMeshFormat()}; ink::strokes_internal::BrushTipExtruder e;
  explicit Pen(float unit) : u(unit) { e.StartStroke(kEps * u, false, mesh); }
  int Pieces() { int n = 0; for (auto& o : e.GetOutlines()) n += !o.GetIndices().empty(); return n; }
  bool Covers(int x, int y) {
    D px = D(x) * u, py = D(y) * u;
    for (uint32_t i = 0; i < mesh.TriangleCount(); ++i) {
      auto t = mesh.TriangleIndices(i); ink::Point a = mesh.VertexPosition(t[0]), b = mesh.VertexPosition(t[1]), c = mesh.VertexPosition(t[2]);
      auto side = [&](ink::Point p, ink::Point q) { return (D(q.x) - p.x) * (py - p.y) - (D(q.y) - p.y) * (px - p.x); };
      D s = side(a, b), v = side(b, c), w = side(c, a); if (s + v + w != 0 && ((s >= 0 && v >= 0 && w >= 0) || (s <= 0 && v <= 0 && w <= 0))) return true;
    }
    return false;
  }
};
// Approximate distances, to choose sample points near the edge of the swept area (the specification decides what they should be).
struct Shape { std::vector<Pt> c; D r; };
static D SegDist(Pt a, Pt b, Pt p) { D dx = b.x - a.x, dy = b.y - a.y, l = dx * dx + dy * dy, t = l > 0 ? std::clamp(((p.x - a.x) * dx + (p.y - a.y) * dy) / l, 0.0, 1.0) : 0; return std::hypot(p.x - a.x - t * dx, p.y - a.y - t * dy); }
static std::vector<IR> Samples(Rng& g, Pen& pen, const std::vector<std::vector<Shape>>& pieces, int n) {
  D lo[2] = {1e9, 1e9}, hi[2] = {-1e9, -1e9}; std::vector<Pt> rim;
  for (auto& p : pieces) for (auto& s : p) for (auto& c : s.c) { lo[0] = std::min(lo[0], c.x - s.r); hi[0] = std::max(hi[0], c.x + s.r); lo[1] = std::min(lo[1], c.y - s.r); hi[1] = std::max(hi[1], c.y + s.r); }
  std::vector<IR> out; auto add = [&](D x, D y) { int a = int(std::lround(x)), b = int(std::lround(y)); out.push_back({a, b, pen.Covers(a, b)}); };
  for (int k = 0; k < n; ++k) {
    auto& p = g.Pick(pieces); size_t i = size_t(g.Int(0, int(p.size()) - 1)); D t = i + 1 < p.size() ? g.Unit() : 0; auto &a = p[i], &b = p[i + (i + 1 < p.size())];
    size_t c = size_t(g.Int(0, int(a.c.size()) - 1)), d = a.c.size() == b.c.size() ? c : 0; D ang = g.Unit() * 6.2831853, r = a.r + (b.r - a.r) * t + (g.Chance(2, 3) ? (g.Chance(1, 2) ? 1 : -1) * kEps * (2.1 + g.Unit()) : -g.Unit() * a.r * 0.9);
    Pt m{a.c[c].x + (b.c[d].x - a.c[c].x) * t, a.c[c].y + (b.c[d].y - a.c[c].y) * t};
    if (g.Chance(1, 6)) add(lo[0] - 90 + (hi[0] - lo[0] + 180) * g.Unit(), lo[1] - 90 + (hi[1] - lo[1] + 180) * g.Unit());
    else if (a.c.size() > 1 && g.Chance(1, 3)) { auto& q = a.c[(c + 1) % a.c.size()]; D v = g.Unit(); add(m.x + (q.x - a.c[c].x) * v, m.y + (q.y - a.c[c].y) * v); }
    else add(m.x + r * std::cos(ang), m.y + r * std::sin(ang));
  }
  return out;
}
template <typename F> static void Extend(Rng& g, Pen& pen, const std::vector<BrushTipState>& st, F) {
  for (size_t k = 0; k < st.size();) { size_t f = std::min(size_t(g.Int(0, 4)), st.size() - k), v = std::min(size_t(g.Int(0, 3)), st.size() - k - f); if (k + f == st.size()) v = 0; pen.e.ExtendStroke(absl::MakeSpan(st).subspan(k, f), absl::MakeSpan(st).subspan(k + f, v)); k += f; }
}
int main() {
  Trace t; Rng g(Seed());
  const float units[] = {0.03125f, 1, 0.0021f, 8};
  // histories from the specification
  size_t seen = 0;
  for (auto& b : Behaviours()) {
    if (!Thorough() && seen++ % 24 != Seed() % 24) continue;
    Pen pen(g.Pick(units)); t.Reset(); std::vector<IR> fixed;
    for (auto& o : b) {
      auto n = [&](size_t i) { return std::stoi(o[i]); }; size_t nf = size_t(n(1)); std::vector<IR> f, v; std::vector<BrushTipState> sf, sv;
      for (size_t i = 2; i + 1 < o.size(); i += 2) { IR c{n(i), 0, n(i + 1)}; bool fx = f.size() < nf; (fx ? f : v).push_back(c); (fx ? sf : sv).push_back(Round(c, pen.u)); }
      pen.e.ExtendStroke(sf, sv); fixed.insert(fixed.end(), f.begin(), f.end());
      std::vector<IR> xs; for (int x = -5; x < 13; ++x) for (int y : {0, 40, -150}) xs.push_back({x * 160 + 80, y, pen.Covers(x * 160 + 80, y)});
      t(J("extend").A("f", f).A("v", v).I("pieces", pen.Pieces()).A("xs", xs));
    }
  }
  const IR rots[] = {{1, 0, 1}, {0, 1, 1}, {-1, 0, 1}, {0, -1, 1}, {3, 4, 5}, {-4, 3, 5}, {12, -5, 13}, {-5, -12, 13}, {24, 7, 25}, {99, 20, 101}, {63, -16, 65}};
  const IR slants[] = {{1, 0, 1}, {1, 0, 1}, {1, 0, 1}, {4, 3, 5}, {12, -5, 13}, {24, 7, 25}};
  // one tip along gently turning paths, with interruptions
  t.Reset(); t.Auto(1000);
  for (int k = Scale(240, 9000); k > 0; --k) {
    Pen pen(g.Pick(units)); int w = 16 * g.Int(6, 90), h = g.Chance(1, 3) ? w : std::max(96, w * g.Int(2, 10) / 10 / 16 * 16);
    Tip tip{w, h, g.Chance(1, 3) ? 8 : g.Chance(1, 2) ? 0 : g.Int(1, 7), g.Pick(rots), g.Pick(slants), g.Chance(1, 2) ? 0 : g.Int(1, 8)}; if (g.Chance(1, 4)) std::swap(tip.w, tip.h);
    int size = std::max(tip.w, tip.h), n = k % 4 == 0 ? 1 : k % 4 == 1 ? 2 : g.Int(3, 9), np = g.Chance(1, 4) ? 2 : 1; bool shortSteps = g.Chance(1, 4);
    std::vector<std::vector<IP>> paths; std::vector<BrushTipState> st; std::vector<std::vector<Shape>> pieces; D x = 0, y = 0, dir = g.Chance(1, 2) ? g.Int(0, 7) * M_PI / 4 : g.Unit() * 6.28;
    for (int p = 0; p < np; ++p) {
      paths.emplace_back(); pieces.emplace_back();
      for (int i = 0; i < n; ++i) {
        IP q{int(std::lround(x)), int(std::lround(y))}; paths.back().push_back(q); st.push_back(State(tip, q, pen.u));
        ink::strokes_internal::BrushTipShape s(st.back(), kEps * pen.u); Shape sh; for (auto& c : s.PerimeterCircles()) { sh.c.push_back({c.Center().x / pen.u, c.Center().y / pen.u}); sh.r = c.Radius() / pen.u; } pieces.back().push_back(sh);
        D len = g.Int(32, shortSteps ? 200 : 1200); x += len * std::cos(dir); y += len * std::sin(dir); if (g.Chance(2, 3)) dir += (g.Unit() - 0.5) * 0.6 * std::min(1.0, len / size);
      }
      if (p + 1 < np) { st.push_back(State({g.Int(0, 31), g.Int(0, 31), 8, {1, 0, 1}, {1, 0, 1}, 0}, paths.back().back(), pen.u)); if (g.Chance(1, 3)) st.push_back(st.back()); x += 2.5 * size * std::cos(dir); y += 2.5 * size * std::sin(dir); }
    }
    Extend(g, pen, st, 0);
    t(J("sweep").Raw("tip", tip.Json().Str()).A("paths", paths).I("pieces", pen.Pieces()).A("xs", Samples(g, pen, pieces, 70)));
  }
  // straight along or across the edges of the tip, flat tips, dots
  for (int k = Scale(520, 12000); k > 0; --k) {
    Pen pen(g.Pick(std::array<float, 6>{0.03125f, 1, 0.0021f, 8, 0.003125f, 0.71f})); bool flat = k % 8 == 0; int w = 16 * g.Int(flat ? 20 : 8, 80), h = flat ? g.Int(1, 31) : g.Chance(1, 4) ? w : 16 * g.Int(6, 60);
    Tip tip{w, h, g.Chance(1, 3) ? 8 : g.Chance(1, 3) ? 0 : g.Int(1, 7), g.Pick(rots), g.Chance(1, 2) ? slants[0] : g.Pick(slants), flat || g.Chance(2, 3) ? 0 : g.Int(1, 8)}; if (g.Chance(1, 3)) std::swap(tip.w, tip.h);
    IR d = g.Chance(2, 3) ? tip.rot : g.Pick(rots); if (g.Chance(1, 3)) d = {-d[1], d[0], d[2]}; if (g.Chance(1, 2)) d = {-d[0], -d[1], d[2]};
    int n = flat ? g.Int(1, 2) : g.Chance(1, 8) ? 1 : g.Int(2, 4), x = g.Chance(1, 2) ? 0 : g.Int(-500, 500), y = g.Chance(1, 2) ? 0 : g.Int(-500, 500); std::vector<std::vector<IP>> paths(1); std::vector<BrushTipState> st; std::vector<std::vector<Shape>> pieces(1);
    for (int i = 0; i < n; ++i) {
      IP q{x, y}; paths[0].push_back(q); st.push_back(State(tip, q, pen.u)); ink::strokes_internal::BrushTipShape s(st.back(), kEps * pen.u); Shape sh; for (auto& c : s.PerimeterCircles()) { sh.c.push_back({c.Center().x / pen.u, c.Center().y / pen.u}); sh.r = c.Radius() / pen.u; } pieces[0].push_back(sh);
      int m = (g.Chance(1, 2) ? g.Int(40, 300) : g.Int(200, 1400)) / d[2] + 1; x += d[0] * m; y += d[1] * m;
    }
    Extend(g, pen, st, 0);
    t(J("sweep").Raw("tip", tip.Json().Str()).A("paths", paths).I("pieces", pen.Pieces()).A("xs", Samples(g, pen, pieces, 36)));
  }
  // a round tip just inside or just outside another one
  for (int k = Scale(400, 9000); k > 0; --k) {
    Pen pen(std::ldexp(0.5f + g.Unit(), g.Int(-9, 3))); IR d = g.Pick(rots); int m = g.Int(40, 600) / d[2], a = g.Int(40, 300), b = a + m * d[2] + (g.Chance(1, 3) ? g.Int(-2, 2) : 0); std::vector<IR> path{{0, 0, a}, {d[0] * m, d[1] * m, b}}; if (g.Chance(1, 2)) std::swap(path[0][2], path[1][2]);
    std::vector<BrushTipState> st; std::vector<std::vector<Shape>> pieces(1); for (auto& c : path) { st.push_back(Round(c, pen.u)); pieces[0].push_back({{{D(c[0]), D(c[1])}}, D(c[2])}); }
    Extend(g, pen, st, 0);
    t(J("round").A("path", path).I("pieces", pen.Pieces()).A("xs", Samples(g, pen, pieces, 6)));
  }
  // round tips of changing size
  for (int k = Scale(160, 6000); k > 0; --k) {
    Pen pen(g.Pick(units)); int n = k % 3 == 0 ? 2 : g.Int(2, 7), big = g.Int(60, 500); std::vector<IR> path; std::vector<BrushTipState> st; std::vector<std::vector<Shape>> pieces(1); D x = 0, y = 0, dir = g.Chance(1, 2) ? g.Int(0, 7) * M_PI / 4 : g.Unit() * 6.28; int r = g.Int(48, big);
    for (int i = 0; i < n; ++i) {
      IR c{int(std::lround(x)), int(std::lround(y)), r}; path.push_back(c); st.push_back(Round(c, pen.u)); pieces[0].push_back({{{D(c[0]), D(c[1])}}, D(r)});
      int was = r; r = g.Chance(1, 3) ? r : std::clamp(r + g.Int(-100, 100), 48, 500); D len = std::abs(r - was) * (n == 2 ? 1 : 3) + g.Int(32, n == 2 ? 1500 : 600); if (n == 2 && g.Chance(1, 5)) len = std::abs(r - was); x += len * std::cos(dir); y += len * std::sin(dir); dir += (g.Unit() - 0.5) * 0.4 * std::min(1.0, len / (2 * big));
    }
    Extend(g, pen, st, 0);
    t(J("round").A("path", path).I("pieces", pen.Pieces()).A("xs", Samples(g, pen, pieces, 60)));
  }
}
