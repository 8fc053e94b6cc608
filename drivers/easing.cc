// C34: easing functions: what is accepted, and the curves that the accepted ones draw.
#include "part_values.h"
#include "ink/strokes/internal/easing_implementation.h"
using namespace verif;
using Impl = ink::strokes_internal::EasingImplementation;
static long long Q(float y, double unit = 65536) { return std::isfinite(y) && std::abs(double(y)) < 30000 ? std::llround(double(y) * unit) : y > 0 ? 2000000000 : y < 0 ? -2000000000 : 2000000001; }
static const ES kPos[] = {ES::kJumpEnd, ES::kJumpStart, ES::kJumpBoth, ES::kJumpNone};
int main() {
  Trace t; t.Auto(3000); t.Reset();
  Rng g(Seed()); Parts p(g);
  for (int k = Scale(20000, 300000); k > 0; --k) {
    static const std::vector<int> wilds = {0, 0, 40, 150, 400}; p.wild = g.Pick(wilds);
    EasingFunction f = p.Easing(); t(J("easing").Raw("v", JEasing(f).Str()).B("ok", ink::brush_internal::ValidateEasingFunction(f).ok()));
  }
  p.wild = 0;
  for (int k = Scale(6000, 60000); k > 0; --k) {
    EasingFunction a = p.Easing(), b = a, c = p.Easing();
    if (g.Chance(1, 6)) b = c;
    else if (auto* z = std::get_if<EasingFunction::CubicBezier>(&b.parameters)) { float v = p.In(0, 1); switch (g.Int(0, 4)) { case 0: z->x1 = v; break; case 1: z->x2 = v; break; case 2: z->y1 = v; break; case 3: z->y2 = v; break; default:; } }
    else if (auto* z = std::get_if<EasingFunction::Linear>(&b.parameters)) { if (!z->points.empty()) { auto& q = z->points[size_t(g.Int(0, int(z->points.size()) - 1))]; switch (g.Int(0, 3)) { case 0: q.x = p.In(0, 1); break; case 1: q.y = p.Fin(); break; case 2: z->points.pop_back(); break; default:; } } }
    else if (auto* z = std::get_if<EasingFunction::Steps>(&b.parameters)) { switch (g.Int(0, 2)) { case 0: z->step_count = g.Int(1, 6); break; case 1: z->step_position = g.Pick(kSteps).first; break; default:; } }
    t(J("same").Raw("a", JEasing(a).Str()).Raw("b", JEasing(b).Str()).B("eq", a == b).B("ne", a != b));
  }
  { Impl id(EasingFunction{EP::kLinear}), none(EasingFunction{EasingFunction::Linear{}}); for (int k = 0; k < 3000; ++k) { float x = p.Finite(); t(J("identity").F("x", x).F("y", id.GetY(x))); if (k < 600) { x = float(g.Int(-1024, 1024)) / 256; t(J("identity").F("x", x).F("y", none.GetY(x))); } } }
  // lines
  auto line = [&](const std::vector<std::pair<int, int>>& pts) {
    EasingFunction::Linear f; std::vector<std::vector<int>> ps; std::vector<int> xs = {-512, -1, 0, 1, 255, 256, 257, 600};
    for (auto [x, y] : pts) { f.points.push_back({float(x) / 256, float(y) / 16}); ps.push_back({x, y}); for (int d = -1; d <= 1; ++d) if (x + d >= 0 && x + d <= 256) xs.push_back(x + d); }
    for (int k = 0; k < 4; ++k) xs.push_back(g.Int(0, 256));
    Impl e(EasingFunction{f}); std::vector<long long> ys; for (int x : xs) ys.push_back(Q(e.GetY(float(x) / 256)));
    t(J("line").A("pts", ps).A("xs", xs).A("ys", ys));
    int side = g.Chance(1, 2) ? 1 : -1; float far = e.GetY(float(side) * std::numeric_limits<float>::infinity());
    t(J("far").A("pts", ps).I("side", side).I("far", std::isnan(far) ? 9 : std::isinf(far) ? (far > 0 ? 1 : -1) : 2).I("y", Q(far)));
  };
  for (auto& b : Behaviours()) { std::vector<std::pair<int, int>> v; for (auto& o : b) v.push_back({std::atoi(o[0].c_str()), std::atoi(o[1].c_str())}); line(v); }
  for (int k = Scale(2500, 30000); k > 0; --k) { std::vector<std::pair<int, int>> v; for (int m = g.Int(0, 9); m > 0; --m) v.push_back({g.Chance(1, 4) ? g.Int(0, 1) * 256 : g.Chance(1, 3) && !v.empty() ? v.back().first : g.Int(0, 256), g.Int(-24, 40)}); std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; }); line(v); }
  // steps
  auto steps = [&](int n, ES s, const char* named = nullptr) {
    Impl e(named ? EasingFunction{std::string(named) == "kStepStart" ? EP::kStepStart : EP::kStepEnd} : EasingFunction{EasingFunction::Steps{n, s}});
    std::vector<int> xs = {-4096, -1, 4095, 4096, 4097, 9000}; std::vector<long long> ys;
    for (int k = 0; k < 24; ++k) xs.push_back(g.Int(0, 4095));
    std::vector<int> kept; for (int x : xs) if (x <= 0 || x >= 4096 || (n & (n - 1)) == 0 || (long long)n * x % 4096 != 0) kept.push_back(x);
    if (n <= 4096 && (n & (n - 1)) == 0) for (int k = 0; k < 12; ++k) { int b = g.Int(0, n - 1) * (4096 / n); kept.push_back(b); if (b) kept.push_back(b - 1); }
    kept.push_back(0);
    for (int x : kept) ys.push_back(Q(e.GetY(float(x) / 4096)));
    t(J("steps").I("n", n).S("pos", NameOf(kSteps, s)).A("xs", kept).A("ys", ys));
    for (int m = 0; m < 6 && n > 1; ++m) { int k = g.Int(1, n - 1); float x = float(k) / float(n); x = g.Pick(std::vector<float>{x, std::nextafter(x, 0.0f), std::nextafter(x, 1.0f)}); t(J("jump").I("n", n).S("pos", NameOf(kSteps, s)).I("k", k).I("y", Q(e.GetY(x)))); }
  };
  steps(1, ES::kJumpStart, "kStepStart"); steps(1, ES::kJumpEnd, "kStepEnd");
  for (ES s : kPos) for (int n = s == ES::kJumpNone ? 2 : 1; n <= 1000; n += n < 70 ? 1 : g.Int(1, Scale(60, 5))) steps(n, s);
  // Bezier curves
  auto bezier = [&](int x1, int y1, int x2, int y2) {
    auto c = [](int v) { return float(v) / 64; };
    Impl e(EasingFunction{EasingFunction::CubicBezier{c(x1), c(y1), c(x2), c(y2)}});
    std::vector<int> xs = {-40000, -1, 0, 32767, 32768, 50000}; std::vector<long long> ys; for (int k = 0; k < 10; ++k) xs.push_back(g.Int(1, 32767)); for (int k = 0; k < 4; ++k) xs.push_back(g.Int(1, 12) * 32768 / 13);
    for (int x : xs) ys.push_back(Q(e.GetY(float(x) / 32768)));
    t(J("bezier").Raw("f", J().I("x1", x1).I("y1", y1).I("x2", x2).I("y2", y2).Str()).A("xs", xs).A("ys", ys));
    if (y1 >= 0 && y1 <= 64 && y2 >= 0 && y2 <= 64) { std::vector<float> v; for (int k = -2; k <= 80; ++k) v.push_back(e.GetY(float(k) / 78)); t(J("rising").A("ys", v)); }
  };
  for (int x1 : {0, 1, 16, 32, 63, 64}) for (int x2 : {0, 1, 16, 32, 63, 64}) for (int y1 : {-64, 0, 1, 32, 64, 128}) for (int y2 : {-64, 0, 32, 63, 64, 128}) if (Thorough() || x1 % 16 == 0 || x2 % 16 == 0) bezier(x1, y1, x2, y2);
  for (int k = Scale(400, 12000); k > 0; --k) bezier(g.Int(0, 64), g.Int(-64, 128), g.Int(0, 64), g.Int(-64, 128));
  for (EP n : {EP::kEase, EP::kEaseIn, EP::kEaseOut, EP::kEaseInOut}) {
    Impl e(EasingFunction{n}); std::vector<int> xs; std::vector<long long> ys; for (int k = -8; k <= 264; ++k) { xs.push_back(k * 128); ys.push_back(Q(e.GetY(float(k) / 256))); }
    t(J("named").S("name", NameOf(kPredef, n)).A("xs", xs).A("ys", ys));
    std::vector<float> v; for (int k = -2; k <= 400; ++k) v.push_back(e.GetY(float(k) / 398)); t(J("rising").A("ys", v));
  }
  // any valid parameters
  for (int k = Scale(8000, 100000); k > 0; --k) {
    EasingFunction f = p.Easing(); if (!ink::brush_internal::ValidateEasingFunction(f).ok()) std::exit(3);
    Impl e(f), copy(e); bool finite = true; std::vector<float> xs = {0, -0.0f, 1e-45f, 1e-38f, std::nextafter(1.0f, 0.0f), 1}; for (int m = 0; m < 8; ++m) xs.push_back(g.Unit());
    bool constant = true;
    if (auto* l = std::get_if<EasingFunction::Linear>(&f.parameters)) for (auto& q : l->points) { xs.push_back(q.x); constant = constant && q.x > 0; }
    for (float x : xs) { float y = copy.GetY(x); finite = finite && std::isfinite(y); }
    if (!std::holds_alternative<EasingFunction::Linear>(f.parameters)) for (int m = 0; m < 6; ++m) { float y = e.GetY(p.Finite()); finite = finite && std::isfinite(y); }
    std::vector<float> below, above = {e.GetY(1)}; if (constant) { float y = e.GetY(0); if (auto* s = std::get_if<EasingFunction::Steps>(&f.parameters); !(s && (s->step_position == ES::kJumpStart || s->step_position == ES::kJumpBoth)) && !std::holds_alternative<EP>(f.parameters)) below = {y}; }
    std::string kind = JEasing(f).Str(); kind = kind.substr(6, kind.find('"', 6) - 6);
    auto* b = std::get_if<EasingFunction::CubicBezier>(&f.parameters); if (b && (std::abs(b->y1) > 8 || std::abs(b->y2) > 8)) { below.clear(); above.clear(); }
    t(J("wild").S("k", kind).Raw("f", JEasing(f).Str()).B("finite", finite).A("below", below).A("above", above));
  }
  // critical points
  for (int k = Scale(2500, 30000); k > 0; --k) {
    EasingFunction f; bool flat = false;
    switch (g.Int(0, 3)) {
      case 0: { EasingFunction::Linear l; for (int m = g.Int(0, 8); m > 0; --m) l.points.push_back({g.Chance(1, 4) ? float(g.Int(0, 4)) / 4 : g.Unit(), float(g.Int(-16, 32)) / 16}); std::stable_sort(l.points.begin(), l.points.end(), [](auto& a, auto& b) { return a.x < b.x; }); f = {l}; break; }
      case 1: { ES s = kPos[g.Int(0, 3)]; f = {EasingFunction::Steps{g.Int(2, 40), s}}; flat = true; break; }
      case 2: f = {EasingFunction::CubicBezier{g.Unit(), float(g.Int(-128, 192)) / 64, g.Unit(), float(g.Int(-128, 192)) / 64}}; break;
      default: f = {static_cast<EP>(g.Int(0, 6))}; flat = std::get<EP>(f.parameters) == EP::kStepStart || std::get<EP>(f.parameters) == EP::kStepEnd;
    }
    Impl e(f); absl::InlinedVector<float, Impl::kInlineCriticalPointCount> c; e.AppendUnitIntervalCriticalPoints(c);
    std::vector<float> at(c.begin(), c.end()), ends = at; ends.insert(ends.begin(), 0); ends.push_back(1);
    std::vector<std::vector<long long>> ys;
    for (size_t i = 1; i < ends.size(); ++i) {
      float a = ends[i - 1], b = ends[i]; if (!(b - a > 1e-5f)) continue;
      ys.push_back({}); for (int m = 0; m < 9; ++m) { float x = a + (b - a) * (float(m) + 0.01f) / 9.02f; if (x < b) ys.back().push_back(Q(e.GetY(x))); }
    }
    t(J("pieces").A("at", at).A("ys", ys).B("flat", flat));
  }
}
