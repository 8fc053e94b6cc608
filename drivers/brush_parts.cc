// C32: tips, paint, coats, families near and across every limit; brushes as objects under every sequence of setters.
#include "part_values.h"
#include "ink/color/color.h"
using namespace verif;
using namespace ink::brush_internal;
using A = ink::MeshFormat::AttributeId;
static std::string Attr(A a) {
  switch (a) { case A::kPosition: return "kPosition"; case A::kColorShiftHsl: return "kColorShiftHsl"; case A::kOpacityShift: return "kOpacityShift"; case A::kTexture: return "kTexture"; case A::kSideDerivative: return "kSideDerivative"; case A::kSideLabel: return "kSideLabel";
    case A::kForwardDerivative: return "kForwardDerivative"; case A::kForwardLabel: return "kForwardLabel"; case A::kSurfaceUv: return "kSurfaceUv"; default: return "?"; }
}
static ink::BrushFamily FamilyNo(int k) { BrushTip tip; tip.pinch = float(k) / 64; auto f = ink::BrushFamily::Create(tip, BrushPaint{}, "/brush-family:f:" + std::to_string(k + 1)); if (!f.ok()) std::exit(3); return *f; }
static int FamilyIndex(const ink::BrushFamily& f) {  // -1: neither of the tip nor the URI of one of ours
  if (!f.GetUri()) return f.GetCoats().size() == 1 && f.GetCoats()[0].tips.size() == 1 && f.GetCoats()[0].tips[0] == BrushTip{} ? 0 : -1;
  int k = int(f.GetUri()->GetRevisionNumber()) - 1; return f.GetCoats().size() == 1 && f.GetCoats()[0].tips[0].pinch == float(k) / 64 ? k : -1;
}
static ink::Color ColorNo(int k) { return k == 0 ? ink::Color::Red() : ink::Color::FromFloat(float(k) / 16, 0.25f, 0.5f, 1); }
static int ColorIndex(const ink::Color& c) { for (int k = 0; k < 64; ++k) if (c == ColorNo(k)) return k; return -1; }
int main() {
  Trace t; t.Auto(3000); t.Reset();
  Rng g(Seed()); Parts p(g);
  const std::vector<int> wilds = {0, 0, 40, 150, 400};
  for (int k = Scale(7000, 100000); k > 0; --k) { p.wild = g.Pick(wilds); BrushTip x = p.Tip(1); t(J("tip").Raw("v", JTip(x).Str()).B("ok", ValidateBrushTip(x).ok())); }
  for (int k = Scale(12000, 150000); k > 0; --k) { p.wild = g.Pick(wilds) / 2; auto x = p.Layer(); t(J("layer").Raw("v", JLayer(x).Str()).B("ok", ValidateBrushPaintTextureLayer(x).ok())); }
  for (int k = Scale(3000, 40000); k > 0; --k) { p.wild = g.Pick(wilds) / 8; auto x = p.Paint(); t(J("paint").Raw("v", JPaint(x)).B("ok", ValidateBrushPaint(x).ok())); }
  for (int k = Scale(3000, 40000); k > 0; --k) {
    p.wild = g.Pick(wilds) / 10; auto x = p.Coat(); std::vector<std::string> need; for (auto a : GetRequiredAttributeIds(x)) need.push_back(Attr(a));
    t(J("coat").Raw("v", JCoat(x).Str()).B("ok", ValidateBrushCoat(x).ok()).A("need", need));
  }
  // every number of a tip or a layer alone at every special value
  {
    const float inf = std::numeric_limits<float>::infinity();
    std::vector<float> vs = {0, -0.0f, 1e-45f, -1e-45f, 1, std::nextafter(1.0f, 2.0f), std::nextafter(1.0f, 0.0f), 2, std::nextafter(2.0f, 3.0f), -1, 1.57079637f, std::nextafter(1.57079637f, 2.0f), -1.57079637f, -std::nextafter(1.57079637f, 2.0f), 3.4028235e38f, -3.4028235e38f, inf, -inf, std::nanf("")};
    for (float v : vs) {
      for (int f = 0; f < 9; ++f) {
        BrushTip x;
        switch (f) { case 0: x.scale.x = v; break; case 1: x.scale.y = v; break; case 2: x.corner_rounding = v; break; case 3: x.slant = Angle::Radians(v); break; case 4: x.pinch = v; break; case 5: x.rotation = Angle::Radians(v); break; case 6: x.opacity_multiplier = v; break; case 7: x.particle_gap_distance_scale = v; break; default: x.particle_gap_duration = ink::Duration32::Seconds(v); }
        t(J("tip").Raw("v", JTip(x).Str()).B("ok", ValidateBrushTip(x).ok()));
      }
      for (int f = 0; f < 20; ++f) {
        BrushPaint::TextureLayer y; y.color_texture_uri = *ink::Uri::Parse("/texture:a"); BrushPaint::TextureKeyframe key{.progress = 0.5f};
        switch (f) { case 0: y.size.x = v; break; case 1: y.size.y = v; break; case 2: y.offset.x = v; break; case 3: y.offset.y = v; break; case 4: y.rotation = Angle::Radians(v); break; case 5: y.size_jitter.x = v; break; case 6: y.size_jitter.y = v; break; case 7: y.offset_jitter.x = v; break; case 8: y.offset_jitter.y = v; break;
          case 9: y.rotation_jitter = Angle::Radians(v); break; case 10: y.opacity = v; break; case 11: key.progress = v; break; case 12: key.size = Vec{v, 1}; break; case 13: key.size = Vec{1, v}; break; case 14: key.offset = Vec{v, 0}; break; case 15: key.offset = Vec{0, v}; break; case 16: key.rotation = Angle::Radians(v); break; case 17: key.opacity = v; break;
          case 18: y.size.x = v; y.size_jitter.x = v; break; default: y.size_jitter.y = v; y.size.y = 2; }
        if (f >= 11 && f <= 17) { y.keyframes = {{.progress = 0}, key, {.progress = 1}}; }
        t(J("layer").Raw("v", JLayer(y).Str()).B("ok", ValidateBrushPaintTextureLayer(y).ok()));
      }
    }
  }
  // families: number of coats, an unacceptable one anywhere, identifiers, both forms of each
  const char* uris[] = {"", "/brush-family:a", "/texture:b", "bad uri", "ink://x/brush-family:q:7"};
  for (int n = 0; n <= 13; ++n) for (int bad = -1; bad < std::min(n, 12); ++bad) for (int u = 0; u < 5; ++u) {
    if (bad >= 0 && u != 1 && !g.Chance(1, 4)) continue;
    std::vector<BrushCoat> cs; p.wild = 0; for (int i = 0; i < n; ++i) { BrushCoat c; c.tips.push_back(BrushTip{.pinch = float(i) / 16}); if (g.Chance(1, 6)) c = p.Coat(1); cs.push_back(c); }
    if (bad >= 0) { auto& c = cs[size_t(bad)]; switch (g.Int(0, 2)) { case 0: c.tips.clear(); break; case 1: c.tips[0].pinch = 1.5f; break; default: c.tips.push_back(BrushTip{}); } }
    ink::BrushFamily::InputModel m = ink::BrushFamily::SpringModelV1{}; if (g.Chance(1, 2)) m = ink::BrushFamily::SpringModelV2{};
    bool strings = u == 3 || g.Chance(1, 2);
    std::optional<ink::Uri> uri; if (u != 0 && u != 3) uri = *ink::Uri::Parse(uris[u]);
    bool single = n == 1 && cs[0].tips.size() == 1 && g.Chance(1, 2);
    auto f = single ? (strings ? ink::BrushFamily::Create(cs[0].tips[0], cs[0].paint, absl::string_view(uris[u]), m) : ink::BrushFamily::Create(cs[0].tips[0], cs[0].paint, uri, m))
                    : (strings ? ink::BrushFamily::Create(cs, absl::string_view(uris[u]), m) : ink::BrushFamily::Create(cs, uri, m));
    std::string a = "["; for (auto& c : cs) { if (a.size() > 1) a += ","; a += JCoat(c).Str(); } a += "]";
    bool kept = false;
    if (f.ok()) {
      ink::BrushFamily copy = *f; auto got = copy.GetCoats(); kept = got.size() == cs.size() && copy.GetUri() == uri && copy.GetInputModel().index() == m.index();
      for (size_t i = 0; kept && i < cs.size(); ++i) kept = got[i].tips == cs[i].tips && got[i].paint == cs[i].paint;
    }
    t(J("family").Raw("v", a).S("uri", u == 0 ? "" : u == 3 ? "bad" : UriType(*ink::Uri::Parse(uris[u]))).B("ok", f.ok()).I("code", int(f.status().code())).B("kept", kept));
  }
  // equality: exactly the values
  p.wild = 0;
  for (int k = Scale(5000, 60000); k > 0; --k) switch (g.Int(0, 3)) {
    case 0: { BrushTip a = p.Tip(1), b = a, c = p.Tip(1); switch (g.Int(0, 10)) { case 0: b.scale.x = c.scale.x; break; case 1: b.scale.y = c.scale.y; break; case 2: b.corner_rounding = c.corner_rounding; break; case 3: b.slant = c.slant; break; case 4: b.pinch = c.pinch; break; case 5: b.rotation = c.rotation; break; case 6: b.opacity_multiplier = c.opacity_multiplier; break;
        case 7: b.particle_gap_distance_scale = c.particle_gap_distance_scale; break; case 8: b.particle_gap_duration = c.particle_gap_duration; break; case 9: b.behaviors = c.behaviors; break; default:; }
      t(J("same").Raw("a", JTip(a).Str()).Raw("b", JTip(b).Str()).B("eq", a == b).B("ne", a != b)); break; }
    case 1: { auto a = p.Layer(), b = a, c = p.Layer(); switch (g.Int(0, 15)) { case 0: b.color_texture_uri = c.color_texture_uri; break; case 1: b.mapping = c.mapping; break; case 2: b.origin = c.origin; break; case 3: b.size_unit = c.size_unit; break; case 4: b.wrap_x = c.wrap_x; break; case 5: b.wrap_y = c.wrap_y; break; case 6: b.size = c.size; break; case 7: b.offset = c.offset; break;
        case 8: b.rotation = c.rotation; break; case 9: b.size_jitter = c.size_jitter; break; case 10: b.offset_jitter = c.offset_jitter; break; case 11: b.rotation_jitter = c.rotation_jitter; break; case 12: b.opacity = c.opacity; break; case 13: b.keyframes = c.keyframes; break; case 14: b.blend_mode = c.blend_mode; break; default:; }
      t(J("same").Raw("a", JLayer(a).Str()).Raw("b", JLayer(b).Str()).B("eq", a == b).B("ne", a != b)); break; }
    case 2: { auto a = p.Key(), b = a, c = p.Key(); switch (g.Int(0, 5)) { case 0: b.progress = c.progress; break; case 1: b.size = c.size; break; case 2: b.offset = c.offset; break; case 3: b.rotation = c.rotation; break; case 4: b.opacity = c.opacity; break; default:; }
      t(J("same").Raw("a", JKey(a).Str()).Raw("b", JKey(b).Str()).B("eq", a == b).B("ne", a != b)); break; }
    default: { auto a = p.Paint(), b = a; switch (g.Int(0, 3)) { case 0: break; case 1: if (!b.texture_layers.empty()) b.texture_layers.pop_back(); break; case 2: b = p.Paint(); break; default: if (b.texture_layers.size() > 1) std::swap(b.texture_layers[0], b.texture_layers[1]); }
      t(J("same").Raw("a", JPaint(a)).Raw("b", JPaint(b)).B("eq", a == b).B("ne", a != b)); }
  }
  // brushes as objects
  t.Auto(0);
  const float vals[] = {0, -1.4e-45f, 0, 1.4e-45f, std::nextafter(1.0f, 0.0f), 1, std::nextafter(1.0f, 2.0f), 2, 3.4028235e38f, std::numeric_limits<float>::infinity(), std::nanf("")};  // index from 1
  auto see = [](const ink::Brush& b) { return J().F("size", b.GetSize()).F("eps", b.GetEpsilon()).I("family", FamilyIndex(b.GetFamily())).I("color", ColorIndex(b.GetColor())); };
  std::vector<ink::BrushFamily> fams; for (int k = 0; k < 40; ++k) fams.push_back(FamilyNo(k));
  auto run = [&](auto&& ops) {
    t.Reset();
    ink::Brush b[2]; int n = 0;
    for (auto& op : ops) {
      ++n; int i = std::atoi(op[1].c_str()) - 1; const std::string& o = op[0]; auto num = [&](int k) { return o.size() && op[k][0] == '#' ? Dec(std::atoi(op[k].c_str() + 1)) : vals[std::atoi(op[k].c_str())]; };
      J j(o == "family" ? "family2" : o.c_str()); j.I("i", i + 1).I("tag", n);
      if (o == "create") { float x = num(2), y = num(3); auto r = ink::Brush::Create(fams[size_t(n)], ColorNo(n), x, y); j.F("x", x).F("y", y).B("ok", r.ok()).I("code", int(r.status().code())); if (r.ok()) b[i] = *r; }
      else if (o == "size") { float x = num(2); j.F("x", x).B("ok", b[i].SetSize(x).ok()); }
      else if (o == "eps") { float x = num(2); j.F("x", x).B("ok", b[i].SetEpsilon(x).ok()); }
      else if (o == "color") b[i].SetColor(ColorNo(n));
      else if (o == "family") b[i].SetFamily(fams[size_t(n)]);
      else b[1 - i] = b[i];
      t(j.Raw("after", "[" + see(b[0]).Str() + "," + see(b[1]).Str() + "]"));
    }
  };
  for (auto& beh : Behaviours()) run(beh);
  for (int k = Scale(700, 12000); k > 0; --k) {
    std::vector<std::vector<std::string>> ops; p.wild = 300;
    for (int m = g.Int(3, 14); m > 0; --m) { static const char* os[] = {"create", "size", "size", "eps", "eps", "color", "family", "copy"}; auto v = [&] { return "#" + std::to_string(Enc(g.Chance(1, 2) ? p.Any() : std::ldexp(1.0f, g.Int(-6, 6)))); }; std::string o = os[g.Int(0, 7)]; ops.push_back({o, std::to_string(g.Int(1, 2)), v(), v()}); }
    run(ops);
  }
}
