// C21: rectangles under histories of operations: on a dyadic grid (arithmetic decided exactly) and over any finite floats (order).
#include "common.h"
#include "ink/geometry/rect.h"
using namespace verif;
using namespace ink;
static Trace* T;
static constexpr float U = 1024;  // grid units per 1
using Args = std::vector<int>;
static Args Codes(const Rect& r) { return {Enc(r.XMin()), Enc(r.YMin()), Enc(r.XMax()), Enc(r.YMax())}; }
static bool Grid(float f) { return std::fabs(f) < 4096 && f * U == std::round(f * U); }
static bool Grid(const Rect& r) { return Grid(r.XMin()) && Grid(r.YMin()) && Grid(r.XMax()) && Grid(r.YMax()); }
static int Un(float f) { double d = std::round(double(f) * U); return std::isnan(d) ? 2000000000 : int(std::max(-2e9, std::min(2e9, d))); }
static Args Units(const Rect& r) { return {Un(r.XMin()), Un(r.YMin()), Un(r.XMax()), Un(r.YMax())}; }
static bool Fin(const Rect& r) { for (float f : {r.XMin(), r.YMin(), r.XMax(), r.YMax()}) if (!std::isfinite(f)) return false; return true; }
static void Report(J& j, const Rect& r, Rng& g) {
  std::vector<Args> cs, es; std::vector<J> has, hasr;
  for (Point p : r.Corners()) cs.push_back({Enc(p.x), Enc(p.y)});
  for (int i = 0; i < 4; ++i) { Segment s = r.GetEdge(i); es.push_back({Enc(s.start.x), Enc(s.start.y), Enc(s.end.x), Enc(s.end.y)}); }
  float xs[] = {r.XMin(), r.XMax(), r.Center().x, std::nextafter(r.XMin(), -INFINITY), std::nextafter(r.XMax(), INFINITY), 0};
  float ys[] = {r.YMin(), r.YMax(), r.Center().y, std::nextafter(r.YMin(), -INFINITY), std::nextafter(r.YMax(), INFINITY), 0};
  for (int i = 0; i < 5; ++i) {
    Point p{g.Pick(xs), g.Pick(ys)}, q{g.Pick(xs), g.Pick(ys)};
    has.push_back(J().F("x", p.x).F("y", p.y).B("in", r.Contains(p)));
    Rect o = Rect::FromTwoPoints(p, q);
    hasr.push_back(J().A("o", Codes(o)).B("in", r.Contains(o)));
  }
  Point c = r.Center();
  j.A("rc", Codes(r)).A("corners", cs).A("edges", es).A("has", has).A("hasRect", hasr).B("finite", Fin(r))
      .B("finiteParts", std::isfinite(c.x) && std::isfinite(c.y) && std::isfinite(r.SemiWidth()) && std::isfinite(r.SemiHeight())).A("c", Args{Enc(c.x), Enc(c.y)});
}
// grid: arguments in units (factors in quarters, ratios as they are)
static void Do(Rect& r, const Rect& o, const std::string& op, const std::string& s, const Args& a, bool raw, Rng& g) {
  auto f = [&](size_t i) { return raw ? Dec(a[i]) : float(a[i]) / U; };
  auto k = [&](size_t i) { return raw ? Dec(a[i]) : float(a[i]) / 4; };
  bool before = Grid(r);
  Args was{Enc(r.Center().x), Enc(r.Center().y)};
  if (op == "center") r = Rect::FromCenterAndDimensions({f(0), f(1)}, f(2), f(3));
  else if (op == "two") r = Rect::FromTwoPoints({f(0), f(1)}, {f(2), f(3)});
  else if (op == "default") r = Rect();
  else if (op == "setCenter") r.SetCenter({f(0), f(1)});
  else if (op == "setWidth") r.SetWidth(f(0));
  else if (op == "setHeight") r.SetHeight(f(0));
  else if (op == "offset") { if (a[0] == a[1] && g.Chance(1, 2)) r.Offset(f(0)); else r.Offset(f(0), f(1)); }
  else if (op == "scale") { if (a[0] == a[1] && g.Chance(1, 2)) r.Scale(k(0)); else r.Scale(k(0), k(1)); }
  else if (op == "translate") r.Translate({f(0), f(1)});
  else if (op == "joinPoint") r.Join(Point{f(0), f(1)});
  else if (op == "joinRect") r.Join(o);
  else if (op == "resize") { if (s == "xmin") r.ResizeSettingXMinTo(f(0)); else if (s == "ymin") r.ResizeSettingYMinTo(f(0)); else if (s == "xmax") r.ResizeSettingXMaxTo(f(0)); else r.ResizeSettingYMaxTo(f(0)); }
  else if (op == "slide") { if (s == "xmin") r.TranslateSettingXMinTo(f(0)); else if (s == "ymin") r.TranslateSettingYMinTo(f(0)); else if (s == "xmax") r.TranslateSettingXMaxTo(f(0)); else r.TranslateSettingYMaxTo(f(0)); }
  else if (op == "containing") r = r.ContainingRectWithAspectRatio(raw ? Dec(a[0]) : float(a[0]) / float(a[1]));
  else if (op == "interior") r = r.InteriorRectWithAspectRatio(raw ? Dec(a[0]) : float(a[0]) / float(a[1]));
  else std::exit(3);
  J j(op.c_str());
  j.S("s", s).A("a", a).B("raw", raw);
  Report(j, r, g);
  if (raw) {
    bool fin = true; for (int x : a) fin = fin && std::isfinite(Dec(x));
    j.A("o", Codes(o)).A("was", was).B("argfinite", fin);
  } else {
    Point c = r.Center();
    j.A("o", Units(o)).A("r", Units(r)).B("grid", before).B("ongrid", Grid(r)).I("cx2", Un(2 * c.x)).I("cy2", Un(2 * c.y)).I("w", Un(r.Width())).I("h", Un(r.Height()))
        .I("semiW2", Un(2 * r.SemiWidth())).I("semiH2", Un(2 * r.SemiHeight())).I("area16", int(std::min(2e9, std::round(16. * double(r.Area()))))).I("aspect1024", r.Height() > 16 / U ? int(std::min(2e9, std::round(1024. * double(r.AspectRatio())))) : 0);
  }
  (*T)(j);
}
static float Odd(Rng& g) {
  static const float some[] = {0, -0.f, 1, -1, 0.1f, 1e-45f, -1e-45f, 3.4e38f, -3.4e38f, 2e38f, 1e-7f, 1 + 1.2e-7f, 16777216, -16777216};
  if (g.Chance(1, 3)) return float(g.Int(-4, 4)) / 3;
  if (g.Chance(1, 2)) return g.Pick(some);
  float f; do f = g.Bits(); while (!std::isfinite(f));
  return f;
}
int main() {
  Trace t; T = &t;
  Rng g(Seed() * 23 + 9);
  for (auto& b : Behaviours()) {
    t.Reset();
    // the model's units are 8 * 32 of ours, so that halves and quarters of its odd ones stay on the grid
    const int m = 32;
    auto rect = [&](int a, int b1, int c, int d) { return Rect::FromTwoPoints({a * m / U, b1 * m / U}, {c * m / U, d * m / U}); };
    Rect r, o = rect(16, -16, 48, 32);
    Do(r, o, "two", "", {0, 0, 64 * m, 32 * m}, false, g);
    for (auto& op : b) {
      Args a; for (size_t i = 2; i < op.size(); ++i) a.push_back(std::stoi(op[i]) * (op[0] == "scale" || op[0] == "containing" || op[0] == "interior" ? 1 : m));
      Do(r, o, op[0], op[1] == "-" ? "" : op[1], a, false, g);
    }
  }
  static const char* sides[] = {"xmin", "ymin", "xmax", "ymax"};
  static const char* ops[] = {"center", "two", "setCenter", "setWidth", "setHeight", "offset", "offset", "scale", "scale", "translate", "joinPoint", "joinRect", "resize", "resize", "slide", "containing", "interior"};
  for (int run = 0; run < Scale(2500, 100000); ++run) {
    t.Reset();
    bool raw = run % 2;
    Rect r, o;
    int step = g.Chance(1, 2) ? 256 : 1;
    auto v = [&] { return raw ? Enc(Odd(g)) : g.Int(-8192 / step, 8192 / step) * step; };
    auto pos = [&] { int c = v(); return c < 0 ? -c : c; };
    auto make = [&] { int a[4] = {v(), v(), v(), v()}; if (g.Chance(1, 4)) a[2] = a[0]; if (g.Chance(1, 4)) a[3] = a[1]; auto f = [&](int x) { return raw ? Dec(x) : float(x) / U; }; return Rect::FromTwoPoints({f(a[0]), f(a[1])}, {f(a[2]), f(a[3])}); };
    if (raw) Do(r, o, "default", "", {}, true, g);
    r = make(); o = make();
    { Args a = raw ? Codes(r) : Units(r); Do(r, o, "two", "", a, raw, g); }
    for (int i = g.Int(1, 6); i > 0; --i) {
      if (!raw && (std::fabs(r.XMin()) > 60 || std::fabs(r.XMax()) > 60 || std::fabs(r.YMin()) > 60 || std::fabs(r.YMax()) > 60)) break;
      if (raw && !Fin(r)) break;
      std::string op = g.Pick(ops), s; Args a;
      if (op == "center") a = {v(), v(), pos(), pos()};
      else if (op == "two") a = {v(), v(), v(), v()};
      else if (op == "setWidth" || op == "setHeight") a = {pos()};
      else if (op == "scale") { if (raw) a = {pos(), pos()}; else a = {g.Int(0, 8), g.Int(0, 8)}; if (g.Chance(1, 4)) a[1] = a[0]; }
      else if (op == "joinRect") o = make();
      else if (op == "resize" || op == "slide") { s = g.Pick(sides); a = {v()}; }
      else if (op == "containing") { if (raw) a = {std::max(1, pos())}; else a = {g.Int(1, 8), g.Int(1, 8)}; }
      else if (op == "interior") { if (raw) a = {pos()}; else a = {g.Int(0, 8), g.Int(1, 8)}; }
      else { a = {v(), v()}; if (op == "offset" && !raw && g.Chance(1, 2)) a = {-g.Int(0, 4096), -g.Int(0, 4096)}; if (op == "offset" && g.Chance(1, 4)) a[1] = a[0]; }
      Do(r, o, op, s, a, raw, g);
    }
  }
}
