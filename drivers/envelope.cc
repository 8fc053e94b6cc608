// C20: envelopes under histories of additions (model-generated and random), over every kind of object and unusual coordinates.
#include <list>
#include <memory>
#include "absl/strings/str_cat.h"
#include "common.h"
#include "ink/geometry/angle.h"
#include "ink/geometry/envelope.h"
using namespace verif;
using namespace ink;
using Pts = std::vector<std::vector<int>>;
static Trace* T;
static std::unique_ptr<Envelope> E[2];
static std::vector<int> P(Point p) { return {Enc(p.x), Enc(p.y)}; }
static std::vector<int> Box(const Envelope& e) { const auto& r = e.AsRect(); return r ? std::vector<int>{Enc(r->XMin()), Enc(r->YMin()), Enc(r->XMax()), Enc(r->YMax())} : std::vector<int>{}; }
static void Log(J j) {
  std::vector<J> all;
  for (auto& e : E) all.push_back(J().A("box", Box(*e)).B("empty", e->IsEmpty()).B("shown", absl::StrCat(*e).find("<empty>") != std::string::npos));
  (*T)(j.A("all", all));
}
static void Start() { for (auto& e : E) e = std::make_unique<Envelope>(); T->Reset(); }
static Pts Of(Point p) { return {P(p)}; }
static Pts Of(const Segment& s) { return {P(s.start), P(s.end)}; }
static Pts Of(const Triangle& t) { return {P(t.p0), P(t.p1), P(t.p2)}; }
static Pts Of(const Rect& r) { Pts o; for (Point p : r.Corners()) o.push_back(P(p)); return o; }
static Pts Of(const Quad& q) { Pts o; for (Point p : q.Corners()) o.push_back(P(p)); return o; }
template <typename X> static void Add(int h, const X& x, int how = 0) {
  if (how == 1) { E[h] = std::make_unique<Envelope>(x); Log(J("new").I("h", h + 1).A("pts", Of(x))); }
  else { E[h]->Add(x); Log(J("add").I("h", h + 1).A("pts", Of(x))); }
}
template <typename X> static void Many(int h, const std::vector<X>& xs, int how) {
  Pts pts; for (auto& x : xs) for (auto& p : Of(x)) pts.push_back(p);
  std::list<X> l(xs.begin(), xs.end());
  switch (how) {
    case 0: E[h]->Add(xs); break;
    case 1: E[h]->Add(l.begin(), l.end()); break;
    case 2: E[h] = std::make_unique<Envelope>(l); break;
    default: E[h] = std::make_unique<Envelope>(xs.begin(), xs.end());
  }
  Log(J(how < 2 ? "add" : "new").I("h", h + 1).A("pts", pts));
}
static void Whole(int h, const char* op) {
  int j = 1 - h; std::string o = op;
  if (o == "env") E[h]->Add(*E[j]);
  else if (o == "self") { j = h; E[h]->Add(*E[h]); }
  else if (o == "copy") *E[h] = *E[j];
  else if (o == "clone") { Envelope c = *E[j]; *E[h] = std::move(c); }
  else E[h]->Reset();
  Log(J(o == "self" ? "env" : o == "clone" ? "copy" : o == "reset" ? "empty" : op).I("h", h + 1).I("j", j + 1));
}
static float Odd(Rng& g) {
  static const float some[] = {0, -0.f, 1, -1, 0.1f, 1e-45f, -1e-45f, 3.4e38f, -3.4e38f, 1e-7f, 1 + 1.2e-7f, 16777216, INFINITY, -INFINITY};
  if (g.Chance(1, 3)) return float(g.Int(-4, 4));
  if (g.Chance(1, 2)) return g.Pick(some);
  float f; do f = g.Bits(); while (!std::isfinite(f));
  return f;
}
int main() {
  Trace t; T = &t;
  static const float maps[4][3] = {{0, 1, 2}, {-3e38f, -1e-45f, 3e38f}, {-INFINITY, 0.1f, INFINITY}, {-7, -1.5f, -1}};
  int k = 0;
  for (auto& b : Behaviours()) {
    const float* m = maps[k++ % 4];
    Start();
    for (auto& o : b) {
      int h = std::stoi(o[1]) - 1; std::vector<Point> p;
      for (size_t i = 2; i + 1 < o.size(); i += 2) p.push_back({m[std::stoi(o[i])], m[std::stoi(o[i + 1])]});
      if (o[0] == "pt") Add(h, p[0]);
      else if (o[0] == "seg") Add(h, Segment{p[0], p[1]});
      else if (o[0] == "tri") Add(h, Triangle{p[0], p[1], p[2]});
      else if (o[0] == "rect") Add(h, Rect::FromTwoPoints(p[0], p[1]));
      else if (o[0] == "many") { std::vector<Point> q; for (int i = 1; i <= std::stoi(o[2]); ++i) q.push_back({m[i % 3], m[(i * i) % 3]}); Many(h, q, k / 4 % 2); }
      else Whole(h, o[0].c_str());
    }
  }
  Rng g(Seed() * 17 + 3);
  for (int run = 0; run < Scale(1500, 60000); ++run) {
    Start();
    bool plain = g.Chance(1, 2);
    auto c = [&] { return plain ? float(g.Int(-3, 3)) : Odd(g); };
    auto pt = [&] { return Point{c(), c()}; };
    auto fin = [&] { float f = c(); return std::isfinite(f) ? std::min(1e37f, std::max(-1e37f, f)) : 1.f; };
    auto quad = [&] { return Quad::FromCenterDimensionsRotationAndShear({fin(), fin()}, std::fabs(fin()), fin(), Angle::Radians(g.Chance(1, 2) ? 0.f : g.Unit() * 6.3f), float(g.Int(-2, 2))); };
    for (int i = g.Int(1, 8); i > 0; --i) {
      int h = g.Int(0, 1), how = g.Int(0, 5);
      switch (g.Int(0, 9)) {
        case 0: case 1: Add(h, pt(), how); break;
        case 2: Add(h, Segment{pt(), pt()}, how); break;
        case 3: Add(h, Triangle{pt(), pt(), pt()}, how); break;
        case 4: Add(h, Rect::FromTwoPoints(pt(), pt()), how); break;
        case 5: Add(h, quad(), how); break;
        case 6: {
          int n = g.Int(0, 4), w = g.Int(0, 3);
          switch (g.Int(0, 4)) {
            case 0: { std::vector<Point> v; for (int q = 0; q < n; ++q) v.push_back(pt()); Many(h, v, w); break; }
            case 1: { std::vector<Segment> v; for (int q = 0; q < n; ++q) v.push_back({pt(), pt()}); Many(h, v, w); break; }
            case 2: { std::vector<Triangle> v; for (int q = 0; q < n; ++q) v.push_back({pt(), pt(), pt()}); Many(h, v, w); break; }
            case 3: { std::vector<Rect> v; for (int q = 0; q < n; ++q) v.push_back(Rect::FromTwoPoints(pt(), pt())); Many(h, v, w); break; }
            default: { std::vector<Quad> v; for (int q = 0; q < n; ++q) v.push_back(quad()); Many(h, v, w); }
          }
          break;
        }
        default: { static const char* ops[] = {"env", "env", "self", "copy", "clone", "reset"}; Whole(h, g.Pick(ops)); }
      }
    }
  }
}
