// C26: records results of ink::Duration32 operations on special values, boundary values and random floats.
#include <string>
#include "absl/hash/hash.h"
#include "absl/strings/str_cat.h"
#include "absl/time/time.h"
#include "common.h"
#include "ink/types/duration.h"
using namespace verif;
using ink::Duration32;
static Duration32 Make(float f) { return Duration32::Seconds(f); }
int main() {
  Trace t;
  t.Reset();
  const float inf = INFINITY, nan = NAN;
  std::vector<float> v = {0.f, -0.f, inf, -inf, 1.f, -1.f, 1e-45f, -1e-45f, 1.1754944e-38f, 3.4028235e38f, -3.4028235e38f, 0.001f, 1000.f,
                          0.1f, 1.f / 3, -2.5f, 16777216.f, 16777217.f, 1e30f, -1e30f, 9.2e18f, 9.3e18f, -9.3e18f, 1e19f, 2.f, 0.5f, 60.f, 3600.f, 0.0001f, 1e-9f, 123456.789f, 999.9995f, -0.25f};
  Rng g(Seed());
  int extra = Scale(25, 150);
  for (int i = 0; i < extra; ++i) { float f = g.Chance(1, 2) ? g.Bits() : (g.Unit() - 0.5f) * 4000; if (!std::isnan(f)) v.push_back(f); }
  t(J("const").F("zero", Duration32::Zero().ToSeconds()).F("def", Duration32().ToSeconds()).F("inf", Duration32::Infinite().ToSeconds()));
  std::vector<float> s = v;
  s.push_back(nan); s.push_back(-nan);
  for (float a : s) {
    t(J("make").F("a", a).F("p", a).F("r", Duration32::Seconds(a).ToSeconds()).B("fin", Duration32::Seconds(a).IsFinite()));
    t(J("makems").F("a", a).F("p", 0.001f * a).F("r", Duration32::Millis(a).ToSeconds()));
  }
  for (float a : v) {
    Duration32 d = Make(a);
    t(J("toms").F("a", a).F("p", 1000 * a).F("r", d.ToMillis()));
    t(J("neg").F("a", a).F("r", (-d).ToSeconds()));
    absl::Duration w = d.ToAbseil();
    bool wi = w == absl::InfiniteDuration() || w == -absl::InfiniteDuration();
    t(J("abseil").F("a", a).B("wideinf", wi).B("small", std::abs(a) < 9e18f).F("p", float(absl::ToDoubleSeconds(absl::Seconds(a)))).F("back", Duration32(w).ToSeconds()));
    t(J("str").F("a", a).B("wideinf", wi).S("s", absl::StrCat(std::string([&] { struct K { std::string s; void Append(absl::string_view x) { s += std::string(x); } } k; AbslStringify(k, d); return k.s; }()))).S("cat", absl::StrCat(a, "s")).S("fmt", absl::FormatDuration(absl::Seconds(a))));
  }
  for (float a : v)
    for (float b : s) {
      Duration32 d = Make(a), e = Make(b);
      Duration32 c = d; c *= b;
      t(J("mul").F("a", a).F("b", b).B("nz", b == 0 && std::signbit(b)).F("p", a * b).F("r", (d * b).ToSeconds()).F("l", (b * d).ToSeconds()).F("c", c.ToSeconds()));
      c = d; c /= b;
      t(J("div").F("a", a).F("b", b).B("nz", b == 0 && std::signbit(b)).F("p", a / b).F("r", (d / b).ToSeconds()).F("c", c.ToSeconds()));
      if (std::isnan(b)) continue;
      c = d; c += e;
      t(J("add").F("a", a).F("b", b).F("p", a + b).F("r", (d + e).ToSeconds()).F("c", c.ToSeconds()));
      c = d; c -= e;
      t(J("sub").F("a", a).F("b", b).F("p", a - b).F("r", (d - e).ToSeconds()).F("c", c.ToSeconds()));
      t(J("ratio").F("a", a).F("b", b).F("p", a / b).F("r", d / e));
      t(J("cmp").F("a", a).F("b", b).B("eq", d == e).B("ne", d != e).B("lt", d < e).B("gt", d > e).B("le", d <= e).B("ge", d >= e));
      t(J("hash").B("eq", d == e).B("same", absl::Hash<Duration32>()(d) == absl::Hash<Duration32>()(e)));
    }
  // Sequences of compound operations: every step's operands are the previous results.
  for (int h = 0; h < Scale(60, 2000); ++h) {
    t.Reset();
    Duration32 acc = Make(g.Pick(v));
    for (int k = 0; k < 12; ++k) {
      float a = acc.ToSeconds(), b = g.Pick(s);
      int op = g.Int(0, 3);
      if (op < 2 && std::isnan(b)) b = inf;
      if (std::isnan(a)) break;
      Duration32 d = acc;
      if (op == 0) { acc += Make(b); t(J("add").F("a", a).F("b", b).F("p", a + b).F("r", acc.ToSeconds()).F("c", (d + Make(b)).ToSeconds())); }
      if (op == 1) { acc -= Make(b); t(J("sub").F("a", a).F("b", b).F("p", a - b).F("r", acc.ToSeconds()).F("c", (d - Make(b)).ToSeconds())); }
      if (op == 2) { acc *= b; t(J("mul").F("a", a).F("b", b).B("nz", b == 0 && std::signbit(b)).F("p", a * b).F("r", acc.ToSeconds()).F("l", (b * d).ToSeconds()).F("c", (d * b).ToSeconds())); }
      if (op == 3) { acc /= b; t(J("div").F("a", a).F("b", b).B("nz", b == 0 && std::signbit(b)).F("p", a / b).F("r", acc.ToSeconds()).F("c", (d / b).ToSeconds())); }
    }
  }
}
