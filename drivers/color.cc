// C31: colors: made from channels, read back in every format, moved into gamuts and between color spaces; transfer functions and matrices.
#include <sys/wait.h>
#include <unistd.h>
#include <optional>
#include "common.h"
#include "ink/color/color.h"
#include "ink/color/color_helpers.h"
#include "ink/color/color_space.h"
using namespace verif;
using ink::Color; using ink::ColorSpace; using F = Color::Format;
static const std::vector<std::pair<F, const char*>> kF = {{F::kLinear, "kLinear"}, {F::kGammaEncoded, "kGammaEncoded"}, {F::kPremultipliedAlpha, "kPremultipliedAlpha"}};
static const std::vector<std::pair<ColorSpace, const char*>> kS = {{ColorSpace::kSrgb, "sRGB"}, {ColorSpace::kDisplayP3, "Display-P3"}};
static const char* Name(ColorSpace s) { return s == ColorSpace::kSrgb ? "sRGB" : s == ColorSpace::kDisplayP3 ? "Display-P3" : "?"; }
static std::vector<int> E3(Color::RgbaFloat f) { return {Enc(f.r), Enc(f.g), Enc(f.b)}; }
static J State(const Color& c) { auto f = c.AsFloat(F::kLinear); J j; j.A("c", E3(f)).I("a", Enc(f.a)).S("space", Name(c.GetColorSpace())); return j; }
// all that can be seen of a color
static J See(const Color& c) {
  std::vector<J> rs;
  for (auto& [f, n] : kF) {
    auto v = c.AsFloat(f); auto b = c.AsUint8(f); uint32_t p = c.AsPackedUint32RGBA(f);
    rs.push_back(J().S("f", n).A("y", E3(v)).I("a", Enc(v.a)).A("b", std::vector<int>{b.r, b.g, b.b}).I("ba", b.a).A("w", std::vector<int>{int(p >> 16), int(p & 0xffff)}));
  }
  return J().Raw("k", State(c).Str()).I("alpha", Enc(c.GetAlphaFloat())).B("in", c.IsInGamut()).B("near", c.IsNearlyInGamut()).Raw("r", J::Arr(rs));
}
static std::string Columns(ColorSpace s) { return J::Arr(ink::GetColorSpaceToXyzD65Matrix(s, ink::MatrixLayout::kColumnMajor)); }
// does it end the process?
template <typename Fn> static bool Dies(Fn fn) {
  std::fflush(nullptr); pid_t p = fork(); if (p < 0) std::exit(3);
  if (p == 0) { if (!std::freopen("/dev/null", "w", stderr)) _exit(9); fn(); _exit(0); }
  int st = 0; if (waitpid(p, &st, 0) != p) std::exit(3);
  return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}
int main() {
  Trace t; t.Reset(); Rng g(Seed()); long since = 0;
  auto begin = [&]() { if (t.n() - since > 1500) { since = t.n(); t.Reset(); } };
  const float inf = std::numeric_limits<float>::infinity();
  Color c;
  auto make = [&](F f, std::array<float, 3> x, float a, ColorSpace s, bool packed = false) {
    (void)packed; const char* fn = kF[size_t(f)].second;
    c = Color::FromFloat(x[0], x[1], x[2], a, f, s);
    t(J("make").S("f", fn).A("x", x).F("a", a).S("space", Name(s)).Raw("o", See(c).Str()));
  };
  auto refused = [&](F f, std::array<float, 3> x, float a) { if (f != F::kPremultipliedAlpha || !(std::isnan(a) || a <= 0)) return false; for (float v : x) if (!std::isnan(v) && v != 0) return true; return false; };
  auto step = [&](const std::string& op, float a = 0, ColorSpace s = ColorSpace::kSrgb) {
    Color was = c;
    if (op == "alpha") { c = c.WithAlphaFloat(a); t(J("alpha").F("a", a).Raw("o", See(c).Str())); }
    else if (op == "clamp") { c = c.ClampedToGamut(); t(J("clamp").Raw("o", See(c).Str())); }
    else if (op == "scale") { c = c.ScaledToGamut(); t(J("scale").Raw("o", See(c).Str())); }
    else if (op == "space") { c = c.InColorSpace(s); Color back = c.InColorSpace(was.GetColorSpace()); auto raw = ink::ConvertColor({was.AsFloat(F::kLinear).r, was.AsFloat(F::kLinear).g, was.AsFloat(F::kLinear).b, was.GetAlphaFloat()}, was.GetColorSpace(), s); t(J("space").S("to", Name(s)).Raw("m", Columns(was.GetColorSpace())).Raw("n", Columns(s)).A("raw", raw).Raw("back", State(back).Str()).B("nearly", was.NearlyEquals(back)).Raw("o", See(c).Str())); }
    else std::exit(3);
  };
  static const float grid[] = {0, -0.0f, 1, 0.5f, 2, -1, 0.04045f, 0.0031308f, 7.62951e-6f, -7.62951e-6f, 1 + 7.62951e-6f, 1.00001f, -1e-5f, 1.0000068f, -7e-6f, 1.0000001f, 0.99999994f, 1e-30f, 1e-42f, -1e-42f, 3e38f, -3e38f, 255, 0.25f};
  auto value = [&]() -> float {
    switch (g.Int(0, 9)) {
      case 0: return inf; case 1: return -inf; case 2: return std::nanf(""); case 3: case 4: return g.Pick(grid); case 5: return g.Bits();
      case 6: return std::ldexp(g.Unit() * 2 - 1, g.Int(-12, 6)); default: return g.Unit();
    }
  };
  auto tame = [&]() -> float { switch (g.Int(0, 5)) { case 0: return g.Pick(std::vector<float>{0, 1, 0.5f}); case 1: return std::ldexp(g.Unit() * 2 - 1, g.Int(-8, 8)); default: return g.Unit(); } };
  // histories of the specification
  for (auto& b : Behaviours()) {
    begin(); bool dead = false;
    for (auto& o : b) {
      if (o[0] == "make") {
        F f = o[1] == "kLinear" ? F::kLinear : F::kPremultipliedAlpha; std::array<float, 3> x; for (size_t i = 0; i < 3; ++i) x[i] = o[i + 2] == "2147483647" ? std::nanf("") : Dec(std::atoi(o[i + 2].c_str()));
        float a = o[5] == "2147483647" ? std::nanf("") : Dec(std::atoi(o[5].c_str()));
        if (refused(f, x, a)) { make(F::kLinear, {0, 0, 0}, 1, ColorSpace::kSrgb); dead = true; } else make(f, x, a, g.Pick(kS).first);
      } else if (dead) break;
      else if (o[0] == "alpha") step("alpha", o[1] == "2147483647" ? std::nanf("") : Dec(std::atoi(o[1].c_str())));
      else step(o[0]);
    }
  }
  // random histories
  for (int k = Scale(1500, 30000); k > 0; --k) {
    begin(); F f = g.Pick(kF).first; bool calm = g.Chance(1, 2); std::array<float, 3> x; for (float& v : x) v = calm ? tame() : value(); float a = g.Chance(1, 2) ? g.Unit() : value();
    if (f == F::kGammaEncoded && g.Chance(2, 3)) for (float& v : x) v = std::isnan(v) ? v : std::fabs(v) > 1 ? 1 / v : std::fabs(v);
    if (refused(f, x, a)) { if (k % 8 == 0) t(J("refuse").S("f", "kPremultipliedAlpha").A("x", x).F("a", a).B("dies", Dies([&] { Color::FromFloat(x[0], x[1], x[2], a, f); }))); f = F::kLinear; }
    else if (f == F::kPremultipliedAlpha && k % 32 == 0) t(J("refuse").S("f", "kPremultipliedAlpha").A("x", x).F("a", a).B("dies", Dies([&] { Color::FromFloat(x[0], x[1], x[2], a, f); })));
    make(f, x, a, g.Pick(kS).first);
    for (int m = g.Int(0, 4); m > 0; --m) switch (g.Int(0, 4)) { case 0: step("alpha", g.Chance(1, 2) ? g.Unit() : value()); break; case 1: step("clamp"); break; case 2: step("scale"); break; default: step("space", 0, g.Pick(kS).first); }
  }
  // comparisons
  for (int k = Scale(2500, 40000); k > 0; --k) {
    begin(); ColorSpace s = g.Pick(kS).first; std::array<float, 3> x; for (float& v : x) v = g.Chance(1, 3) ? value() : tame(); float a = g.Unit(), b = a; auto y = x; ColorSpace u = g.Chance(1, 4) ? g.Pick(kS).first : s;
    for (float& v : y) switch (g.Int(0, 9)) { case 0: v += 7.62951e-6f; break; case 1: v -= 7.62951e-6f; break; case 2: v += 7.7e-6f * g.Unit() * 2; break; case 3: v = std::nextafter(v, 9.0f); break; case 4: if (k % 3 == 0) v = value(); break; case 5: v -= 5e-6f; break; default:; }
    if (g.Chance(1, 5)) b = g.Chance(1, 2) ? std::nextafter(b, 1.0f) : b + 7.6e-6f * 2 * g.Unit();
    Color p = Color::FromFloat(x[0], x[1], x[2], a, F::kLinear, s), q = Color::FromFloat(y[0], y[1], y[2], b, F::kLinear, u), r = q.InColorSpace(s);
    t(J("compare").Raw("j", State(p).Str()).Raw("k", State(q).Str()).Raw("in", State(r).Str()).B("eq", p == q).B("ne", p != q).B("nearly", p.NearlyEquals(q)));
  }
  // transfer functions
  for (auto& [s, sn] : kS) {
    auto dec = [&](float x) { t(J("decode").S("space", sn).F("x", x).F("y", ink::GammaDecode(x, s)).F("back", ink::GammaEncode(ink::GammaDecode(x, s), s))); };
    auto enc = [&](float y) { t(J("encode").S("space", sn).F("y", y).F("x", ink::GammaEncode(y, s)).F("back", ink::GammaDecode(ink::GammaEncode(y, s), s))); };
    for (float v : grid) { begin(); dec(v); enc(v); }
    begin(); for (float v : {inf, -inf, -0.1f}) { dec(v); enc(v); }
    for (int i = 0; i <= 255; ++i) { dec(float(i) / 255); enc(float(i) / 255); } begin();
    for (int d = -20; d <= 20; ++d) { dec(Dec(Enc(0.04045f) + d)); enc(Dec(Enc(float(0.04045 / 12.92)) + d)); }
    for (int k = Scale(600, 12000); k > 0; --k) { begin(); float v = g.Chance(1, 3) ? std::ldexp(g.Unit(), -g.Int(0, 20)) : g.Unit(); dec(v); enc(v); }
    auto rise = [&](bool decode, float from, int steps, int stride) { std::vector<float> xs, ys; int e = Enc(from); for (int i = 0; i < steps; ++i, e += stride) { float x = Dec(e); if (x > 1) break; xs.push_back(x); ys.push_back(decode ? ink::GammaDecode(x, s) : ink::GammaEncode(x, s)); } t(J("rise").B("decode", decode).A("xs", xs).A("ys", ys)); };
    for (bool d : {true, false}) { begin(); rise(d, 0.04045f - 2e-7f, 120, 1); rise(d, 0.0031307f, 900, 1); rise(d, 0.0f, 100, 1); for (int k = Scale(60, 1500); k > 0; --k) rise(d, g.Unit(), 40, g.Chance(1, 3) ? 1 : g.Int(1, 200000)); rise(d, 1e-6f, 80, 2000000); }
  }
  // bytes read back as they were given
  begin(); std::vector<int> alphas; for (int a = 0; a < 256; a += Scale(a % 17 == 0 ? 1 : 3, 1)) alphas.push_back(a); alphas.push_back(255); alphas.push_back(1); alphas.push_back(2);
  for (auto& [s, sn] : kS) for (auto& [f, fn] : kF) for (int a : alphas) {
    if (f == F::kPremultipliedAlpha && a == 0) continue;
    std::vector<int> r, gg, b, al, w; begin();
    for (int v = 0; v < 256; ++v) { auto p = uint32_t(v) << 24 | uint32_t(255 - v) << 16 | uint32_t((v * 7) % 256) << 8 | uint32_t(a); Color k1 = v % 2 ? Color::FromPackedUint32RGBA(p, f, s) : Color::FromUint8(uint8_t(v), uint8_t(255 - v), uint8_t(v * 7), uint8_t(a), f, s); auto u = k1.AsUint8(f); r.push_back(u.r); gg.push_back(u.g); b.push_back(u.b); al.push_back(u.a); uint32_t q = k1.AsPackedUint32RGBA(f); w.push_back(q == p && k1.GetColorSpace() == s ? 1 : 0); }
    t(J("bytes").S("f", fn).S("space", sn).I("a", a).A("r", r).A("g", gg).A("b", b).A("al", al).A("same", w));
  }
  for (int k = 0; k < Scale(300, 4000); ++k) { begin(); F f = g.Pick(kF).first; uint8_t u[4]; for (auto& v : u) v = uint8_t(g.Int(0, 255)); if (k % 9 == 0) u[3] = 255; if (k % 9 == 1 && f != F::kPremultipliedAlpha) u[3] = 0; if (f == F::kPremultipliedAlpha && !u[3]) u[3] = 1; Color k1 = Color::FromUint8(u[0], u[1], u[2], u[3], f); auto v = k1.AsFloat(f); t(J("unit").S("f", kF[size_t(f)].second).A("u", std::vector<int>{u[0], u[1], u[2], u[3]}).A("y", E3(v)).I("a", Enc(v.a)).Raw("k", State(k1).Str())); }
  for (int a = 0; a < 2; ++a) for (int v : {0, 1, 255}) t(J("refuse8").I("a", a).I("v", v).B("dies", Dies([&] { Color::FromUint8(0, uint8_t(v), 0, uint8_t(a), F::kPremultipliedAlpha); })).B("dies2", Dies([&] { Color::FromPackedUint32RGBA(uint32_t(v) << 8 | uint32_t(a), F::kPremultipliedAlpha); })).B("fine", !Dies([&] { Color::FromUint8(0, uint8_t(v), 0, uint8_t(a), F::kLinear); Color::FromUint8(0, uint8_t(v), 0, uint8_t(a)); })));
  // packing
  for (int k = 0; k < 400; ++k) { uint32_t p = uint32_t(g.Next()); auto u = ink::UnpackUint32ARGB(p); uint32_t q = ink::PackUint32ARGB(u); t(J("argb").A("w", std::vector<int>{int(p >> 16), int(p & 0xffff)}).A("u", std::vector<int>{u.a, u.r, u.g, u.b}).A("q", std::vector<int>{int(q >> 16), int(q & 0xffff)})); }
  // matrices and parameters
  begin();
  for (auto& [s, sn] : kS) {
    using L = ink::MatrixLayout;
    t(J("matrices").S("space", sn).Raw("to", Columns(s)).A("tor", ink::GetColorSpaceToXyzD65Matrix(s, L::kRowMajor)).A("from", ink::GetXyzD65ToColorSpaceMatrix(s, L::kColumnMajor)).A("fromr", ink::GetXyzD65ToColorSpaceMatrix(s, L::kRowMajor)).A("p", ink::GetGammaDecodingParameters(s)));
  }
  // the palette, and names
#define P(n) t(J("named").S("n", #n).Raw("k", State(Color::n()).Str()).A("u", std::vector<int>{Color::n().AsUint8(F::kGammaEncoded).r, Color::n().AsUint8(F::kGammaEncoded).g, Color::n().AsUint8(F::kGammaEncoded).b}));
  P(Black) P(Gray) P(White) P(Red) P(Orange) P(Yellow) P(Green) P(Cyan) P(Blue) P(LightBlue) P(Purple) P(Magenta) P(GoogleBlue) P(GoogleRed) P(GoogleYellow) P(GoogleGreen) P(GoogleGray) P(GoogleOrange) P(GooglePink) P(GooglePurple) P(GoogleCyan) P(DefaultDocumentBackground)
  t(J("clear").Raw("k", State(Color::Transparent()).Str()).Raw("d", State(Color()).Str()));
  for (int k = 0; k < 200; ++k) {
    begin(); std::vector<int> n; for (int i = 0; i < 4; ++i) n.push_back(i == 3 ? g.Int(0, 64) : g.Int(-640, 640)); auto v = [&](int i) { return float(n[size_t(i)]) / 64; }; auto [s, sn] = g.Pick(kS);
    t(J("text").A("n", n).S("space", sn).S("color", absl::StrCat(Color::FromFloat(v(0), v(1), v(2), v(3), F::kLinear, s))).S("floats", absl::StrCat(Color::RgbaFloat{v(0), v(1), v(2), v(3)})));
    std::vector<int> u; for (int i = 0; i < 4; ++i) u.push_back(g.Int(0, 255)); t(J("text8").A("u", u).S("s", absl::StrCat(Color::RgbaUint8{uint8_t(u[0]), uint8_t(u[1]), uint8_t(u[2]), uint8_t(u[3])})));
  }
  for (int k : {0, 1, 2, 3, 7, -1, 100}) t(J("names").I("k", k).S("f", absl::StrCat(static_cast<F>(k))).S("s", absl::StrCat(static_cast<ColorSpace>(k))));
}
