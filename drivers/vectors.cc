// C23: vectors, points, segments and triangles on a quarter grid (all answers decided exactly), and over any floats.
#include "common.h"
#include "ink/geometry/angle.h"
#include "ink/geometry/point.h"
#include "ink/geometry/segment.h"
#include "ink/geometry/triangle.h"
#include "ink/geometry/vec.h"
using namespace verif;
using namespace ink;
using Args = std::vector<int>;
static Trace* T;
static int R(double d) { d = std::round(d); return std::isnan(d) ? 2000000000 : int(std::max(-2e9, std::min(2e9, d))); }
// k times a value, or 2000000001 where that is not a whole number
static int X(float f, double k) { double d = k * double(f); return d == std::round(d) && std::fabs(d) < 2e9 ? int(d) : 2000000001; }
template <typename V> static Args X2(V v, double k) { return {X(v.x, k), X(v.y, k)}; }
template <typename V> static V Mk(const Args& a) { return {a[0] / 4.f, a[1] / 4.f}; }
static Args CosSin(Angle a) { double r = double(a.ValueInRadians()); return {R(16384 * std::cos(r)), R(16384 * std::sin(r))}; }
static Args Unit(Vec v) { return {R(16384. * double(v.x)), R(16384. * double(v.y))}; }
static void VecEvent(Rng& g, Args a, Args b) {
  Vec v = Mk<Vec>(a), w = Mk<Vec>(b);
  int k = g.Int(-3, 3), pm = g.Int(0, 3);
  if (a[0] == 0 && g.Chance(1, 2)) v.x = -0.f;
  if (a[1] == 0 && g.Chance(1, 2)) v.y = -0.f;
  Vec i1 = v, i2 = v, i3 = v, i4 = v; i1 += w; i2 -= w; i3 *= float(k); i4 /= 4.f;
  Angle dir = v.Direction(), ang = Vec::SignedAngleBetween(v, w), abs = Vec::AbsoluteAngleBetween(v, w);
  J j("vec");
  j.A("a", a).A("b", b).I("k", k).I("dot", X(Vec::DotProduct(v, w), 16)).I("det", X(Vec::Determinant(v, w), 16)).I("sq", X(v.MagnitudeSquared(), 16)).I("mag", R(1024. * double(v.Magnitude())))
      .A("orth", X2(v.Orthogonal(), 4)).A("neg", X2(-v, 4)).A("sum", X2(v + w, 4)).A("diff", X2(v - w, 4)).A("times", X2(float(k) * v, 4)).A("times2", X2(v * float(k), 4)).A("over4", X2(v / 4.f, 16))
      .A("inplace", std::vector<Args>{X2(i1, 4), X2(i2, 4), X2(i3, 4), X2(i4, 16)}).B("eq", v == w).B("ne", v != w)
      .A("ua", Unit(v.AsUnitVec())).A("ub", Unit(w.AsUnitVec())).A("dir", CosSin(dir)).F("dirrad", dir.ValueInRadians())
      .F("rad", ang.ValueInRadians()).A("cs", CosSin(ang)).F("abs", abs.ValueInRadians()).A("abscs", CosSin(abs));
  j.I("pm", pm).A("polar", Unit(Vec::FromDirectionAndMagnitude(dir, float(pm))));
  (*T)(j);
}
static void TriEvent(Rng& g, const std::vector<Args>& v, const std::vector<Args>& ps) {
  Triangle t{Mk<Point>(v[0]), Mk<Point>(v[1]), Mk<Point>(v[2])};
  std::vector<Args> other = v;
  switch (g.Int(0, 4)) { case 0: std::swap(other[0], other[1]); break; case 1: std::rotate(other.begin(), other.begin() + 1, other.end()); break; case 2: other[g.Int(0, 2)][g.Int(0, 1)] += 1; break; default: break; }
  Triangle o{Mk<Point>(other[0]), Mk<Point>(other[1]), Mk<Point>(other[2])};
  std::vector<std::vector<Args>> es; for (int i = 0; i < 3; ++i) { Segment s = t.GetEdge(i); es.push_back({X2(s.start, 4), X2(s.end, 4)}); }
  std::vector<bool> in; for (auto& p : ps) in.push_back(t.Contains(Mk<Point>(p)));
  std::vector<int> dummy;
  std::string ins = "["; for (size_t i = 0; i < in.size(); ++i) ins += std::string(i ? "," : "") + (in[i] ? "true" : "false");
  (*T)(J("tri").A("t", v).I("area", X(t.SignedArea(), 32)).A("edges", es).A("p", ps).Raw("in", ins + "]").A("o", other).B("eq", t == o).B("ne", t != o));
}
static float Odd(Rng& g) {
  static const float some[] = {0, -0.f, 1, -1, 0.1f, 1e-45f, -1e-45f, 3e-45f, -4e-45f, 1e-38f, 3.4e38f, -3.4e38f, 2e38f, 1e-20f, -1e25f, INFINITY, -INFINITY, NAN};
  return g.Chance(2, 3) ? g.Pick(some) : g.Bits();
}
int main() {
  Trace t; T = &t; t.Auto(200); t.Reset();
  Rng g(Seed() * 37 + 1);
  std::vector<Args> last; std::vector<Args> ps;
  auto flush = [&] { if (!last.empty()) TriEvent(g, last, ps); ps.clear(); };
  for (auto& b : Behaviours()) {
    Args v; for (size_t i = 1; i < b[0].size(); ++i) v.push_back(std::stoi(b[0][i]));
    std::vector<Args> tri{{v[0], v[1]}, {v[2], v[3]}, {v[4], v[5]}};
    if (tri != last) { flush(); last = tri; }
    ps.push_back({v[6], v[7]});
  }
  flush();
  for (int x = -5; x <= 5; ++x) for (int y = -5; y <= 5; ++y) for (int z = -3; z <= 3; ++z) for (int w = -3; w <= 3; ++w) if (Thorough() || (x + y + z + w) % 2 == 0) VecEvent(g, {x, y}, {z, w});
  for (int i = 0; i < Scale(4000, 100000); ++i) {
    int big = g.Chance(1, 2) ? 64 : 6;
    auto c = [&] { return Args{g.Int(-big, big), g.Int(-big, big)}; };
    Args a = c(), b = c(), p = c();
    if (g.Chance(1, 5)) b = a;
    if (g.Chance(1, 6)) { int k = g.Int(-1, 1); b = {k * a[0], k * a[1]}; }
    VecEvent(g, a, b);
    Point q = Mk<Point>(a); Vec v = Mk<Vec>(b); Point i1 = q, i2 = q; i1 += v; i2 -= v;
    t(J("point").A("a", a).A("b", b).A("plus", X2(q + v, 4)).A("plus2", X2(v + q, 4)).A("minus", X2(q - v, 4)).A("between", X2(q - Mk<Point>(b), 4)).A("offset", X2(q.Offset(), 4)).A("inplace", std::vector<Args>{X2(i1, 4), X2(i2, 4)}).B("eq", q == Mk<Point>(b)).B("ne", q != Mk<Point>(b)));
    Segment s{q, Mk<Point>(b)};
    if (g.Chance(1, 3)) { int k = g.Int(-1, 3); p = {a[0] + k * (b[0] - a[0]), a[1] + k * (b[1] - a[1])}; }
    int r = g.Chance(1, 4) ? 16 * g.Int(0, 1) : g.Int(-20, 36);
    Args cc = g.Chance(1, 2) ? a : b, d = g.Chance(1, 2) ? b : g.Chance(1, 2) ? a : p;
    Segment o{Mk<Point>(cc), Mk<Point>(d)};
    auto pr = s.Project(Mk<Point>(p));
    t(J("seg").A("a", a).A("b", b).A("p", p).I("r", r).A("vector", X2(s.Vector(), 4)).I("length", R(1024. * double(s.Length()))).A("lerp", X2(s.Lerp(r / 16.f), 64)).A("mid", X2(s.Midpoint(), 8)).B("some", pr.has_value()).I("proj", pr ? R(4096. * double(*pr)) : 0).A("c", cc).A("d", d).B("eq", s == o).B("ne", s != o));
    // triangles, with points on their sides, corners and their lines
    std::vector<Args> tr{c(), c(), c()};
    if (g.Chance(1, 8)) tr[g.Int(0, 2)] = tr[g.Int(0, 2)];
    if (g.Chance(1, 8)) { int k = g.Int(-1, 2); tr[2] = {tr[0][0] + k * (tr[1][0] - tr[0][0]), tr[0][1] + k * (tr[1][1] - tr[0][1])}; }
    std::vector<Args> pts;
    for (int k = 0; k < 6; ++k) {
      if (k < 2) pts.push_back(c());
      else if (k == 2) pts.push_back(g.Pick(tr));
      else if (k == 3) { auto& x = g.Pick(tr); auto& y = g.Pick(tr); pts.push_back({(x[0] + y[0]) / 2, (x[1] + y[1]) / 2}); }
      else if (k == 4) { auto& x = g.Pick(tr); auto& y = g.Pick(tr); pts.push_back({2 * x[0] - y[0], 2 * x[1] - y[1]}); }
      else pts.push_back({(tr[0][0] + tr[1][0] + tr[2][0]) / 3 + g.Int(-1, 1), (tr[0][1] + tr[1][1] + tr[2][1]) / 3 + g.Int(-1, 1)});
    }
    TriEvent(g, tr, pts);
    // any floats
    Vec f{Odd(g), Odd(g)}; Vec u = f.AsUnitVec();
    t(J("unit").A("a", Args{Enc(f.x), Enc(f.y)}).A("u", Unit(u)).B("isnan", std::isnan(u.x) && std::isnan(u.y)).A("dir", CosSin(f.Direction())));
    auto fin = [&] { for (;;) { float x = Odd(g); if (std::isfinite(x)) return x; } };
    Segment rs{{fin(), fin()}, {fin(), fin()}};
    if (g.Chance(1, 3)) rs.end = rs.start;
    Point m = rs.Midpoint();
    if (g.Chance(1, 2)) m = rs.Lerp(g.Chance(1, 2) ? g.Unit() : float(g.Int(0, 1)));
    t(J("rawseg").A("a", Args{Enc(rs.start.x), Enc(rs.start.y)}).A("b", Args{Enc(rs.end.x), Enc(rs.end.y)}).A("m", Args{Enc(m.x), Enc(m.y)}).B("finite", std::isfinite(m.x) && std::isfinite(m.y)));
    auto mid = [&] { for (;;) { float x = Odd(g); if (std::isfinite(x) && std::fabs(x) < 1e15f && (x == 0 || std::fabs(x) > 1e-15f)) return x; } };
    Triangle rt{{mid(), mid()}, {mid(), mid()}, {mid(), mid()}};
    t(J("rawtri").B("corners", rt.Contains(rt.p0) && rt.Contains(rt.p1) && rt.Contains(rt.p2)));
  }
}
