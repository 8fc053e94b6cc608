// C22: affine maps with coefficients on a quarter grid: factories, products, images, inverses and the maps found between shapes.
#include "common.h"
#include "ink/geometry/affine_transform.h"
#include "ink/geometry/angle.h"
using namespace verif;
using namespace ink;
using Args = std::vector<int>;
static Trace* T;
static int R(double d) { d = std::round(d); return std::isnan(d) ? 2000000000 : int(std::max(-2e9, std::min(2e9, d))); }
static Args Coefs(const AffineTransform& t, double k) { return {R(k * double(t.A())), R(k * double(t.B())), R(k * double(t.C())), R(k * double(t.D())), R(k * double(t.E())), R(k * double(t.F()))}; }
// times 16, and 2000000001 where that is not a whole number
static int X16(float f) { double d = 16. * double(f); return d == std::round(d) && std::fabs(d) < 2e9 ? int(d) : 2000000001; }
static Args Exact(const AffineTransform& t) { return {X16(t.A()), X16(t.B()), X16(t.C()), X16(t.D()), X16(t.E()), X16(t.F())}; }
static AffineTransform Real(const Args& m) { return AffineTransform(m[0] / 4.f, m[1] / 4.f, m[2] / 4.f, m[3] / 4.f, m[4] / 4.f, m[5] / 4.f); }
static Point Pt(const Args& p) { return {p[0] / 4.f, p[1] / 4.f}; }
static Args X16(Point p) { return {X16(p.x), X16(p.y)}; }
static void Pair(Rng& g, const Args& m, const Args& n) {
  AffineTransform a = Real(m), b = Real(n);
  (*T)(J("mul").A("m", m).A("n", n).A("got", Exact(a * b)));
  Args p{g.Int(-16, 16), g.Int(-16, 16)}, q{g.Int(-16, 16), g.Int(-16, 16)}, r{g.Int(-16, 16), g.Int(-16, 16)};
  int k = g.Int(0, 2);
  std::vector<Args> pts{p}, got;
  if (k == 0) got = {X16(a.Apply(Pt(p)))};
  else if (k == 1) { Segment s = a.Apply(Segment{Pt(p), Pt(q)}); pts.push_back(q); got = {X16(s.start), X16(s.end)}; }
  else { Triangle s = a.Apply(Triangle{Pt(p), Pt(q), Pt(r)}); pts.push_back(q); pts.push_back(r); got = {X16(s.p0), X16(s.p1), X16(s.p2)}; }
  (*T)(J("apply").A("m", m).A("pts", pts).A("got", got));
  Point one = (a * b).Apply(Pt(p)), two = a.Apply(b.Apply(Pt(p)));
  (*T)(J("chain").A("got", Args{Enc(one.x), Enc(one.y)}).A("want", Args{Enc(two.x), Enc(two.y)}));
  auto i = a.Inverse();
  (*T)(J("inverse").A("m", m).B("some", i.has_value()).A("got", i ? Coefs(*i, 4096) : Args{}));
}
static float Turn(Rng& g) { return g.Chance(1, 3) ? float(g.Int(-8, 8) * 0.78539816339744831) : (2 * g.Unit() - 1) * 20; }
static Quad RandomQuad(Rng& g, bool straight) {
  auto c = [&] { return g.Int(-16, 16) / 4.f; };
  float w = std::fabs(c()), h = c();
  if (g.Chance(1, 6)) w = 0;
  if (g.Chance(1, 6)) h = 0;
  return Quad::FromCenterDimensionsRotationAndShear({c(), c()}, w, h, Angle::Radians(straight ? 0 : Turn(g)), g.Chance(1, 2) ? 0 : g.Int(-6, 6) / 4.f);
}
static std::vector<Args> Corners(const Quad& q) { std::vector<Args> o; for (Point p : q.Corners()) o.push_back({R(256. * double(p.x)), R(256. * double(p.y))}); return o; }
static Args RandomMap(Rng& g) {
  static const Args some[] = {{0, 0, 0, 0, 0, 0}, {4, 0, 0, 0, 0, 0}, {0, 0, 8, 0, 4, 0}, {4, 4, 0, 4, 4, 4}, {4, -4, 0, -4, 4, 0}, {8, 4, 0, 16, 8, 4}, {0, 4, 0, 4, 0, 0}, {-4, 0, 0, 0, 4, 0}, {4, 8, 0, 0, 4, 0}, {0, 4, 0, 0, 0, 8}, {1, 2, 0, 2, 4, 0}};
  if (g.Chance(1, 3)) return g.Pick(some);
  Args m; for (int i = 0; i < 6; ++i) m.push_back(g.Chance(1, 2) ? 4 * g.Int(-3, 3) : g.Int(-16, 16));
  if (g.Chance(1, 6)) { m[3] = m[0] * 2; m[4] = m[1] * 2; }
  return m;
}
int main() {
  Trace t; T = &t; t.Auto(200);
  Rng g(Seed() * 31 + 7);
  t.Reset();
  auto make = [&](const char* name, const Args& a, const AffineTransform& m) { t(J("make").S("name", name).A("a", a).A("got", Exact(m))); };
  for (auto& b : Behaviours()) { Args v; for (size_t i = 1; i < b[0].size(); ++i) v.push_back(std::stoi(b[0][i])); Pair(g, Args(v.begin(), v.begin() + 6), Args(v.begin() + 6, v.end())); }
  make("identity", {}, AffineTransform::Identity()); make("default", {}, AffineTransform());
  for (int x = -9; x <= 9; ++x) for (int y : {-16, -5, -4, -1, 0, 1, 4, 7, 20}) {
    float fx = x / 4.f, fy = y / 4.f;
    make("translate", {x, y}, AffineTransform::Translate({fx, fy})); make("scale2", {x, y}, AffineTransform::Scale(fx, fy)); make("scale", {x}, AffineTransform::Scale(fx));
    make("scaleX", {x}, AffineTransform::ScaleX(fx)); make("scaleY", {y}, AffineTransform::ScaleY(fy)); make("shearX", {x}, AffineTransform::ShearX(fx)); make("shearY", {y}, AffineTransform::ShearY(fy));
    Args c{g.Int(-9, 9), g.Int(-9, 9)};
    t(J("about").A("a", Args{x}).A("p", c).A("got", Exact(AffineTransform::ScaleAboutPoint(fx, Pt(c)))));
    t(J("about").A("a", Args{x, y}).A("p", c).A("got", Exact(AffineTransform::ScaleAboutPoint(fx, fy, Pt(c)))));
  }
  for (int i = 0; i < Scale(3000, 100000); ++i) {
    Pair(g, RandomMap(g), RandomMap(g));
    Args a = RandomMap(g); make("coefficients", a, Real(a));
    float turn = Turn(g); Args cs{R(4096 * std::cos(double(turn))), R(4096 * std::sin(double(turn)))}, p{g.Int(-40, 40), g.Int(-40, 40)};
    t(J("turn").A("cs", cs).A("p", Args{0, 0}).A("got", Coefs(AffineTransform::Rotate(Angle::Radians(turn)), 4096)));
    t(J("turn").A("cs", cs).A("p", p).A("got", Coefs(AffineTransform::RotateAboutPoint(Angle::Radians(turn), Pt(p)), 4096)));
    // quadrilaterals and rectangles
    bool rect = g.Chance(1, 3), straight = g.Chance(1, 2);
    Quad q = RandomQuad(g, straight), r;
    if (rect) { Rect x = Rect::FromTwoPoints({g.Int(-8, 8) / 4.f, g.Int(-8, 8) / 4.f}, {g.Int(-8, 8) / 4.f, g.Int(-8, 8) / 4.f}); q = Quad::FromRect(x); r = Real(a).Apply(x); }
    else r = Real(a).Apply(q);
    int gain = std::max(std::abs(a[0]) + std::abs(a[1]), std::abs(a[3]) + std::abs(a[4]));
    t(J("quad").A("m", a).A("before", Corners(q)).A("after", Corners(r)).I("tol", 3 + gain / 4));
    // maps between shapes
    auto c = [&] { return Args{g.Int(-16, 16), g.Int(-16, 16)}; };
    int k = g.Int(0, 3);
    std::vector<Args> from, to; std::optional<AffineTransform> f; const char* kind;
    if (k == 0) { kind = "segment"; from = {c(), c()}; to = {c(), c()}; if (g.Chance(1, 6)) from[1] = from[0]; if (g.Chance(1, 6)) to[1] = to[0]; f = AffineTransform::Find(Segment{Pt(from[0]), Pt(from[1])}, Segment{Pt(to[0]), Pt(to[1])}); }
    else if (k == 1) {
      kind = "triangle"; from = {c(), c(), c()}; to = {c(), c(), c()};
      if (g.Chance(1, 6)) from[2] = {2 * from[1][0] - from[0][0], 2 * from[1][1] - from[0][1]};
      if (g.Chance(1, 8)) from[2] = from[g.Int(0, 1)];
      if (g.Chance(1, 6)) to[2] = to[1];
      f = AffineTransform::Find(Triangle{Pt(from[0]), Pt(from[1]), Pt(from[2])}, Triangle{Pt(to[0]), Pt(to[1]), Pt(to[2])});
    } else if (k == 2) {
      kind = "rect"; auto box = [&] { Args x = c(), y = c(); if (g.Chance(1, 6)) y[0] = x[0]; if (g.Chance(1, 6)) y[1] = x[1]; return Rect::FromTwoPoints(Pt(x), Pt(y)); };
      Rect x = box(), y = box();
      for (Point p : x.Corners()) from.push_back({R(4 * p.x), R(4 * p.y)});
      for (Point p : y.Corners()) to.push_back({R(4 * p.x), R(4 * p.y)});
      f = AffineTransform::Find(x, y);
    } else {
      Quad x = RandomQuad(g, g.Chance(1, 2)), y = RandomQuad(g, g.Chance(1, 2));
      f = AffineTransform::Find(x, y);
      std::vector<Args> got;
      if (f) { auto cs2 = x.Corners(); for (Point p : cs2) { Point z = f->Apply(p); got.push_back({R(256. * double(z.x)), R(256. * double(z.y))}); } }
      bool flat = x.Width() == 0 || x.Height() == 0;
      // a map found is as precise as the shape it starts from is wide
      t(J("findq").B("some", f.has_value()).A("got", got).A("want", Corners(y)).B("degenerate", flat).B("clear", !flat).I("tol", 3));
      continue;
    }
    t(J("find").S("kind", kind).A("from", from).A("to", to).B("some", f.has_value()).A("got", f ? Coefs(*f, 4096) : Args{}));
  }
}
