// C21: quadrilaterals under histories of construction, setters and joins; containment, corners and axes after each step.
#include "common.h"
#include "ink/geometry/angle.h"
#include "ink/geometry/quad.h"
using namespace verif;
using namespace ink;
static Trace* T;
static constexpr float U = 256;
static constexpr double CS = 4096;
using Args = std::vector<int>;
static int Un(float f) { double d = std::round(double(f) * U); return std::isnan(d) ? 2000000000 : int(std::max(-2e9, std::min(2e9, d))); }
static int R(double d) { return int(std::lround(d)); }
static Args CosSin(double a) { return {R(CS * std::cos(a)), R(CS * std::sin(a))}; }
static bool Grid(float f) { return f * U == std::round(f * U); }
static Args Fields(const Quad& q) { return {Enc(q.Center().x), Enc(q.Center().y), Enc(q.Width()), Enc(q.Height()), Enc(q.ShearFactor())}; }
static constexpr double kHalfPi = 1.57079632679489661923;
// u: arguments in units (shear in quarters); rotation in radians
static void Log(const char* op, const Quad& q, Args u, float rot, Rng& g) {
  J j(op);
  Args k;
  std::string o = op;
  for (size_t i = 0; i < u.size(); ++i) k.push_back(Enc(o == "setShear" || (o == "make" && i == 4) ? u[i] / 4.f : u[i] / U));
  float turn = q.Rotation().ValueInRadians();
  j.A("u", u).A("k", k).A("cs", CosSin(double(rot)));
  j.A("f", Args{Un(q.Center().x), Un(q.Center().y), Un(q.Width()), Un(q.Height()), R(4. * double(q.ShearFactor()))}).A("fk", Fields(q)).F("rot", turn).A("rcs", CosSin(double(turn)));
  std::vector<Args> cs, ck, es;
  auto corners = q.Corners();
  for (Point p : corners) { cs.push_back({Un(p.x), Un(p.y)}); ck.push_back({Enc(p.x), Enc(p.y)}); }
  for (int i = 0; i < 4; ++i) { Segment s = q.GetEdge(i); es.push_back({Enc(s.start.x), Enc(s.start.y), Enc(s.end.x), Enc(s.end.y)}); }
  auto [a, b] = q.SemiAxes();
  j.A("corners", cs).A("ck", ck).A("edges", es).A("axes", Args{Un(a.x), Un(a.y), Un(b.x), Un(b.y)}).B("rectangular", q.IsRectangular());
  double dev = std::fabs(std::remainder(double(turn), kHalfPi));
  std::vector<J> ax;
  ax.push_back(J().I("tol", 100).B("yes", q.IsAxisAligned()));
  for (int tol : {0, 1000, 200000}) ax.push_back(J().I("tol", tol).B("yes", q.IsAxisAligned(Angle::Radians(float(tol) * 1e-7f))));
  j.I("dev", R(dev * 1e7)).A("axis", ax);
  j.B("exact", Grid(q.Center().x) && Grid(q.Center().y) && Grid(q.Width()) && Grid(q.Height())).I("area16", R(std::max(-2e9, std::min(2e9, 16. * double(q.SignedArea())))));
  j.I("aspect1024", std::fabs(q.Height()) >= 64 / U ? R(std::max(-2e9, std::min(2e9, 1024. * double(q.AspectRatio())))) : 0);
  std::vector<J> has;
  for (int i = 0; i < 8; ++i) {
    Point p;
    if (i < 2) p = g.Pick(corners);
    else if (i < 6) { static const float m[] = {-1, -0.5f, 0, 0.5f, 1}; p = q.Center() + g.Pick(m) * a + g.Pick(m) * b; }
    else { float r = q.Width() + std::fabs(q.Height()) + 1; p = q.Center() + Vec{r * (2 * g.Unit() - 1), r * (2 * g.Unit() - 1)}; }
    int x = Un(p.x), y = Un(p.y);
    if (i % 2) { x += g.Int(-2, 2); y += g.Int(-2, 2); }
    has.push_back(J().I("x", x).I("y", y).B("in", q.Contains({x / U, y / U})));
  }
  (*T)(j.A("has", has));
}
static void Do(Quad& q, const std::string& op, const Args& u, float rot, Rng& g) {
  auto f = [&](size_t i) { return u[i] / U; };
  Angle a = Angle::Radians(rot);
  if (op == "make") {
    Point c{f(0), f(1)};
    if (u[4] == 0 && rot == 0 && u[2] >= 0 && u[3] >= 0 && g.Chance(1, 2)) q = Quad::FromRect(Rect::FromCenterAndDimensions(c, f(2), f(3)));
    else if (u[4] == 0 && rot == 0 && g.Chance(1, 2)) q = Quad::FromCenterAndDimensions(c, f(2), f(3));
    else if (u[4] == 0 && g.Chance(1, 2)) q = Quad::FromCenterDimensionsAndRotation(c, f(2), f(3), a);
    else q = Quad::FromCenterDimensionsRotationAndShear(c, f(2), f(3), a, u[4] / 4.f);
  } else if (op == "setCenter") q.SetCenter({f(0), f(1)});
  else if (op == "setWidth") q.SetWidth(f(0));
  else if (op == "setHeight") q.SetHeight(f(0));
  else if (op == "setRotation") q.SetRotation(a);
  else if (op == "setShear") q.SetShearFactor(u[0] / 4.f);
  else if (op == "join") q.Join({f(0), f(1)});
  else if (op == "copy") { Quad c = q; q = Quad(); q = std::move(c); }
  else std::exit(3);
  Log(op.c_str(), q, u, rot, g);
}
int main() {
  Trace t; T = &t;
  Rng g(Seed() * 29 + 5);
  for (auto& b : Behaviours()) {
    t.Reset();
    Quad q;
    for (auto& op : b) {
      Args u; float rot = 0;
      for (size_t i = 1; i < op.size(); ++i) u.push_back(std::stoi(op[i]) * 32);
      if (op[0] == "make") { rot = float(u[4] / 32 * kHalfPi); u[4] = u[5] / 32; u.pop_back(); }
      if (op[0] == "setRotation") { rot = float(u[0] / 32 * kHalfPi); u.clear(); }
      if (op[0] == "setShear") u[0] /= 32;
      Do(q, op[0], u, rot, g);
    }
  }
  static const char* ops[] = {"make", "setCenter", "setWidth", "setWidth", "setHeight", "setRotation", "setRotation", "setShear", "join", "join", "join", "copy"};
  for (int run = 0; run < Scale(1200, 60000); ++run) {
    t.Reset();
    int step = g.Chance(1, 2) ? 64 : 1;
    auto v = [&] { return g.Int(-1024 / step, 1024 / step) * step; };
    bool upright = g.Chance(1, 4);
    auto turn = [&] {
      switch (upright ? 0 : g.Int(0, 4)) {
        case 0: return 0.f;
        case 1: return float(g.Int(-9, 9) * kHalfPi);
        case 2: return float(g.Int(-5, 5) * kHalfPi) + float(g.Int(-300, 300)) * 1e-7f;
        case 3: return g.Chance(1, 2) ? -1e-9f : std::nextafter(6.2831855f, g.Chance(1, 2) ? 0.f : 7.f);
        default: return (2 * g.Unit() - 1) * 40;
      }
    };
    auto size = [&] { return g.Chance(1, 6) ? 0 : v(); };
    Quad q;
    Do(q, "make", {v(), v(), size(), size(), g.Chance(1, 2) ? 0 : g.Int(-6, 6)}, turn(), g);
    for (int i = g.Int(1, 6); i > 0; --i) {
      if (q.Width() > 24 || std::fabs(q.Height()) > 24 || std::fabs(q.Center().x) > 12 || std::fabs(q.Center().y) > 12) break;
      if (g.Chance(1, 6)) {
        Quad o = q;
        switch (g.Int(0, 6)) { case 0: o.SetCenter({q.Center().x, std::nextafter(q.Center().y, 99.f)}); break; case 1: o.SetWidth(q.Width() + 1); break; case 2: o.SetHeight(-q.Height()); break; case 3: o.SetRotation(Angle::Radians(1)); break; case 4: o.SetShearFactor(1); break; case 5: o.SetCenter({-q.Center().x, q.Center().y}); break; default: (void)o.Corners(); }
        auto all = [](const Quad& x) { Args a = Fields(x); a.push_back(Enc(x.Rotation().ValueInRadians())); return a; };
        t(J("eq").A("a", all(q)).A("b", all(o)).B("eq", q == o).B("ne", q != o));
      }
      std::string op = g.Pick(ops); Args u; float rot = 0;
      if (op == "make") { u = {v(), v(), size(), size(), g.Int(-6, 6)}; rot = turn(); }
      else if (op == "setCenter" || op == "join") u = {v(), v()};
      else if (op == "setWidth" || op == "setHeight") u = {size()};
      else if (op == "setRotation") rot = turn();
      else if (op == "setShear") u = {g.Int(-6, 6)};
      Do(q, op, u, rot, g);
    }
  }
}
