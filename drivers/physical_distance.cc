// C27: records ink::PhysicalDistance operations.
#include <string>
#include "absl/hash/hash.h"
#include "absl/strings/str_cat.h"
#include "ink/types/physical_distance.h"
#include "quantity_values.h"
using namespace verif;
using D = ink::PhysicalDistance;
struct Sink { std::string s; void Append(absl::string_view x) { s.append(x.data(), x.size()); } };
int main() {
  Trace t;
  t.Reset();
  std::vector<float> v = SpecialFloats();
  Rng g(Seed());
  for (int i = 0; i < Scale(40, 250); ++i) { float f = g.Chance(1, 2) ? g.Bits() : (g.Unit() - 0.5f) * 400; if (!std::isnan(f)) v.push_back(f); }
  v.push_back(INFINITY); v.push_back(-INFINITY);
  t(J("exact").S("w", "zero").F("p", 0.f).F("r", D::Zero().ToCentimeters()));
  t(J("exact").S("w", "default").F("p", 0.f).F("r", D().ToCentimeters()));
  for (float a : v) {
    D c = D::Centimeters(a), in = D::Inches(a), m = D::Meters(a);
    bool n = std::abs(a) > 1e-30f && std::abs(a) < 1e30f;
    t(J("same").F("a", a).F("r", c.ToCentimeters()));
    t(J("unit").S("w", "in>cm").F("a", a).F("p", a * 2.54f).F("r", in.ToCentimeters()));
    t(J("unit").S("w", "m>cm").F("a", a).F("p", a * 100.f).F("r", m.ToCentimeters()));
    t(J("unit").S("w", "cm>in").F("a", a).F("p", a / 2.54f).F("r", c.ToInches()));
    t(J("unit").S("w", "cm>m").F("a", a).F("p", a / 100.f).F("r", c.ToMeters()));
    if (n) t(J("unit").S("w", "in>m").F("a", a).F("p", a * 0.0254f).F("r", in.ToMeters()));
    if (n) t(J("unit").S("w", "m>in").F("a", a).F("p", a / 0.0254f).F("r", m.ToInches()));
    t(J("round").S("w", "in").F("a", a).F("p", a * 2.54f).B("normal", n).F("r", in.ToInches()));
    t(J("round").S("w", "m").F("a", a).F("p", a * 100.f).B("normal", n).F("r", m.ToMeters()));
    t(J("neg").F("a", a).F("r", (-c).ToCentimeters()));
    t(J("finite").F("a", a).B("r", c.IsFinite()));
    Sink k; AbslStringify(k, c);
    t(J("str").F("a", a).S("s", k.s).S("want", absl::StrCat(a, "cm")));
  }
  t(J("finite").F("a", NAN).B("r", D::Centimeters(NAN).IsFinite()));
  for (float a : v)
    for (float b : v) {
      D x = D::Centimeters(a), y = D::Centimeters(b), c;
      t(J("cmp").F("a", a).F("b", b).B("eq", x == y).B("ne", x != y).B("lt", x < y).B("gt", x > y).B("le", x <= y).B("ge", x >= y));
      t(J("arith").S("w", "add").F("a", a).F("b", b).F("p", a + b).F("r", (x + y).ToCentimeters()));
      c = x; c += y; t(J("arith").S("w", "add=").F("a", a).F("b", b).F("p", a + b).F("r", c.ToCentimeters()));
      t(J("arith").S("w", "sub").F("a", a).F("b", b).F("p", a - b).F("r", (x - y).ToCentimeters()));
      c = x; c -= y; t(J("arith").S("w", "sub=").F("a", a).F("b", b).F("p", a - b).F("r", c.ToCentimeters()));
      t(J("arith").S("w", "mul").F("a", a).F("b", b).F("p", a * b).F("r", (x * b).ToCentimeters()));
      t(J("arith").S("w", "lmul").F("a", a).F("b", b).F("p", a * b).F("r", (b * x).ToCentimeters()));
      c = x; c *= b; t(J("arith").S("w", "mul=").F("a", a).F("b", b).F("p", a * b).F("r", c.ToCentimeters()));
      t(J("arith").S("w", "div").F("a", a).F("b", b).F("p", a / b).F("r", (x / b).ToCentimeters()));
      c = x; c /= b; t(J("arith").S("w", "div=").F("a", a).F("b", b).F("p", a / b).F("r", c.ToCentimeters()));
      t(J("arith").S("w", "ratio").F("a", a).F("b", b).F("p", a / b).F("r", x / y));
      t(J("hash").B("eq", x == y).B("same", absl::Hash<D>()(x) == absl::Hash<D>()(y)));
    }
  // Accumulation histories: the running value must always be the running sum in centimeters.
  for (int h = 0; h < Scale(50, 1000); ++h) {
    t.Reset();
    D acc = D::Meters(g.Int(-5, 5));
    float cm = acc.ToCentimeters();
    for (int k = 0; k < 12; ++k) {
      float b = float(g.Int(-400, 400)) / 8;
      int op = g.Int(0, 3);
      if (op == 0) { acc += D::Centimeters(b); cm = cm + b; }
      if (op == 1) { acc -= D::Centimeters(b); cm = cm - b; }
      if (op == 2) { acc *= b; cm = cm * b; }
      if (op == 3 && b != 0) { acc /= b; cm = cm / b; }
      t(J("exact").S("w", "run").F("p", cm).F("r", acc.ToCentimeters()));
      cm = acc.ToCentimeters();
    }
  }
}
