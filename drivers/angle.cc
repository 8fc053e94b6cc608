// C25: records ink::Angle operations: normalization at and around every boundary, arithmetic, comparison, trigonometry.
#include <jni.h>
#include <string>
#include "absl/hash/hash.h"
#include "absl/strings/str_cat.h"
#include "ink/geometry/angle.h"
#include "quantity_values.h"
using namespace verif;
using ink::Angle;
#include "ink/jni/internal/jni_defines.h"
extern "C" {
JNI_METHOD(geometry, Angle, jfloat, nativeNormalized)(JNIEnv* env, jclass clazz, jfloat angle_radians);
JNI_METHOD(geometry, Angle, jfloat, nativeNormalizedAboutZero)(JNIEnv* env, jclass clazz, jfloat angle_radians);
}
static float Norm(float a) { return Angle::Radians(a).Normalized().ValueInRadians(); }
static float Norm0(float a) { return Angle::Radians(a).NormalizedAboutZero().ValueInRadians(); }
static float JNorm(float a) { return Java_androidx_ink_geometry_Angle_nativeNormalized(nullptr, nullptr, a); }
static float JNorm0(float a) { return Java_androidx_ink_geometry_Angle_nativeNormalizedAboutZero(nullptr, nullptr, a); }
int main() {
  Trace t;
  t.Auto(4000);
  t.Reset();
  const float pi = 3.14159265358979f, two = 6.28318530717959f;
  std::vector<float> v = SpecialFloats();
  // multiples of quarter turns and their neighbouring floats, in float and in exact multiples
  for (int k = -24; k <= 24; ++k) {
    for (float b : {float(k * (M_PI / 2)), float(k) * (pi / 2), float(k) * two, float(k) * pi}) {
      float lo = b, hi = b; v.push_back(b);
      for (int d = 0; d < 3; ++d) { lo = std::nextafterf(lo, -INFINITY); hi = std::nextafterf(hi, INFINITY); v.push_back(lo); v.push_back(hi); }
    }
  }
  for (float tiny = 1e-45f; tiny < 1e-5f; tiny *= 7) { v.push_back(tiny); v.push_back(-tiny); v.push_back(two - tiny); v.push_back(-two - tiny); v.push_back(pi + tiny); }
  for (int e = -12; e <= 0; ++e) { v.push_back(-std::ldexp(1.f, e * 3)); v.push_back(-std::ldexp(1.1f, -20 + e)); v.push_back(-std::ldexp(1.9f, -21 - e)); }
  Rng g(Seed());
  for (int i = 0; i < Scale(4000, 60000); ++i) { float f = g.Chance(1, 2) ? g.Bits() : (g.Unit() - 0.5f) * 40; if (std::isfinite(f)) v.push_back(f); }
  for (float a : v) {
    float p = std::fmod(a, two);
    t(J("norm").F("a", a).F("p", p).F("q", p + two).F("r", Norm(a)).F("again", Norm(Norm(a))).F("jni", JNorm(a)));
    t(J("norm0").F("a", a).F("p", p).F("qm", p - two).F("qp", p + two).F("r", Norm0(a)).F("again", Norm0(Norm0(a))).F("jni", JNorm0(a)));
  }
  std::vector<float> w = SpecialFloats();
  for (int i = 0; i < Scale(40, 200); ++i) { float f = g.Chance(1, 2) ? g.Bits() : (g.Unit() - 0.5f) * 40; if (!std::isnan(f)) w.push_back(f); }
  for (float f : {pi, -pi, two, -two, pi / 2, -pi / 2, INFINITY, -INFINITY}) w.push_back(f);
  const float d2r = float(M_PI / 180), r2d = float(180 / M_PI);
  t(J("unit").S("w", "default").F("p", 0.f).F("r", Angle().ValueInRadians()));
  t(J("unit").S("w", "quarter").F("p", float(M_PI / 2)).F("r", ink::kQuarterTurn.ValueInRadians()));
  t(J("unit").S("w", "half").F("p", float(M_PI)).F("r", ink::kHalfTurn.ValueInRadians()));
  t(J("unit").S("w", "full").F("p", float(2 * M_PI)).F("r", ink::kFullTurn.ValueInRadians()));
  for (float a : w) {
    Angle x = Angle::Radians(a);
    t(J("same").F("a", a).F("r", x.ValueInRadians()));
    t(J("unit").S("w", "deg").F("a", a).F("p", a * d2r).F("r", Angle::Degrees(a).ValueInRadians()));
    t(J("unit").S("w", "todeg").F("a", a).F("p", a * r2d).F("r", x.ValueInDegrees()));
    t(J("round").S("w", "deg").F("a", a).F("p", a * r2d).B("normal", std::abs(a) > 1e-30f && std::abs(a) < 1e30f).F("r", Angle::Degrees(a).ValueInDegrees()));
    t(J("neg").F("a", a).F("r", (-x).ValueInRadians()));
    t(J("abs").F("a", a).F("r", ink::Abs(x).ValueInRadians()));
    if (std::isfinite(a)) {
      t(J("arith").S("w", "sin").F("a", a).F("p", std::sin(a)).F("r", ink::Sin(x)));
      t(J("arith").S("w", "cos").F("a", a).F("p", std::cos(a)).F("r", ink::Cos(x)));
      t(J("arith").S("w", "tan").F("a", a).F("p", std::tan(a)).F("r", ink::Tan(x)));
    }
    t(J("arith").S("w", "atan").F("a", a).F("p", std::atan(a)).F("r", ink::Atan(a).ValueInRadians()));
    t(J("arith").S("w", "asin").F("a", a).F("p", std::asin(a)).F("r", ink::Asin(a).ValueInRadians()));
    t(J("arith").S("w", "acos").F("a", a).F("p", std::acos(a)).F("r", ink::Acos(a).ValueInRadians()));
    if (std::isfinite(a)) t(J("str").S("s", absl::StrCat(x)).S("want", absl::StrCat(a / pi) + "\xcf\x80"));
  }
  for (float f = -1.0f; f <= 1.0f; f += 0.0625f) {
    t(J("arith").S("w", "asin").F("a", f).F("p", std::asin(f)).F("r", ink::Asin(f).ValueInRadians()));
    t(J("arith").S("w", "acos").F("a", f).F("p", std::acos(f)).F("r", ink::Acos(f).ValueInRadians()));
  }
  for (float a : w)
    for (float b : w) {
      Angle x = Angle::Radians(a), y = Angle::Radians(b), c;
      t(J("cmp").F("a", a).F("b", b).B("eq", x == y).B("ne", x != y).B("lt", x < y).B("gt", x > y).B("le", x <= y).B("ge", x >= y));
      t(J("min").F("a", a).F("b", b).F("r", ink::Min(x, y).ValueInRadians()));
      t(J("max").F("a", a).F("b", b).F("r", ink::Max(x, y).ValueInRadians()));
      t(J("arith").S("w", "mod").F("a", a).F("b", b).F("p", std::fmod(a, b)).F("r", ink::Mod(x, y).ValueInRadians()));
      t(J("arith").S("w", "add").F("a", a).F("b", b).F("p", a + b).F("r", (x + y).ValueInRadians()));
      c = x; c += y; t(J("arith").S("w", "add=").F("a", a).F("b", b).F("p", a + b).F("r", c.ValueInRadians()));
      t(J("arith").S("w", "sub").F("a", a).F("b", b).F("p", a - b).F("r", (x - y).ValueInRadians()));
      c = x; c -= y; t(J("arith").S("w", "sub=").F("a", a).F("b", b).F("p", a - b).F("r", c.ValueInRadians()));
      t(J("arith").S("w", "mul").F("a", a).F("b", b).F("p", a * b).F("r", (x * b).ValueInRadians()));
      t(J("arith").S("w", "lmul").F("a", a).F("b", b).F("p", a * b).F("r", (b * x).ValueInRadians()));
      c = x; c *= b; t(J("arith").S("w", "mul=").F("a", a).F("b", b).F("p", a * b).F("r", c.ValueInRadians()));
      t(J("arith").S("w", "div").F("a", a).F("b", b).F("p", a / b).F("r", (x / b).ValueInRadians()));
      c = x; c /= b; t(J("arith").S("w", "div=").F("a", a).F("b", b).F("p", a / b).F("r", c.ValueInRadians()));
      t(J("arith").S("w", "ratio").F("a", a).F("b", b).F("p", a / b).F("r", x / y));
      t(J("hash").B("eq", x == y).B("same", absl::Hash<Angle>()(x) == absl::Hash<Angle>()(y)));
    }
}
