// C08: setters, copies and correspondence of shape, brush and inputs on ink::Stroke.
#include <optional>
#include "stroke_values.h"
using namespace verif;
using ink::Stroke;
constexpr int NH = 3;
static float SizeOf(int i) { switch (i) { case 1: return 5; case 2: return 10; case 3: return 0; case 4: return NAN; case 5: return INFINITY; case 6: return -5; case 7: return 7; case 8: return 0.5f; default: return 2; } }
static float EpsOf(int i) { switch (i) { case 1: return 0.5f; case 2: return 7; case 3: return 0; case 4: return NAN; case 5: return INFINITY; case 6: return -0.5f; case 7: return 5; case 8: return 0.25f; default: return 1e-3f; } }
static ink::Color ColorOf(int i) { return i == 1 ? ink::Color::Blue() : i == 2 ? ink::Color::Red() : ink::Color::FromFloat(0.5f, 0.25f, 1, 0.5f); }
static int ColorId(const ink::Color& c) { for (int i = 1; i <= 3; ++i) if (c == ColorOf(i)) return i; return 0; }
static const int kTips[] = {0, 1, 3, 13, 8, 4, 18, 9};
// A family is numbered tips * 100 + model * 10 + paint.
static const ink::BrushFamily& Fam(int f) {
  static std::map<int, ink::BrushFamily> m; auto it = m.find(f); if (it != m.end()) return it->second;
  auto b = MakeBrush(kTips[f / 100]).brush;
  std::vector<ink::BrushCoat> coats(b.GetCoats().begin(), b.GetCoats().end());
  if (f % 10 == 2) for (auto& c : coats) c.paint.texture_layers.push_back({.color_texture_uri = *ink::Uri::Parse("ink://ink/texture:q"), .mapping = ink::BrushPaint::TextureMapping::kTiling});
  if (f % 10 == 3) for (auto& c : coats) c.paint = WindingPaint();
  ink::BrushFamily::InputModel model; if (f / 10 % 10 == 1) model = ink::BrushFamily::SpringModelV1{}; else model = ink::BrushFamily::SpringModelV2{};
  return m.emplace(f, *ink::BrushFamily::Create(coats, std::nullopt, model)).first->second;
}
static ink::StrokeInputBatch InsOf(int i) {
  static std::map<int, ink::StrokeInputBatch> m; auto it = m.find(i); if (it != m.end()) return it->second;
  ink::StrokeInputBatch b; if (i) { Rng g(uint64_t(i) * 77); Pen p(g, 6.f); b = MkBatch(p.Run(i == 3 ? 1 : 4 + 2 * i)); }
  return m.emplace(i, b).first->second;
}
static bool SameInputs(const ink::StrokeInputBatch& a, const ink::StrokeInputBatch& b) { return Inputs(a) == Inputs(b); }
static ink::PartitionedMesh GivenShape(int tips) {
  static std::map<int, ink::PartitionedMesh> m; auto it = m.find(tips); if (it != m.end()) return it->second;
  Rng g(uint64_t(tips) * 5); Pen p(g, 30.f); auto br = *ink::Brush::Create(Fam(tips * 100 + 11), ColorOf(1), 3, 0.1f);
  return m.emplace(tips, Stroke(br, MkBatch(p.Run(9))).GetShape()).first->second;
}
// An in-progress stroke fed the same inputs: its shape must be the same and its meshes say which coats have anything to show.
struct Live { int g, filled; };
static Live Draw(const ink::Brush& b, const ink::StrokeInputBatch& in) {
  ink::InProgressStroke s; s.Start(b); if (!s.EnqueueInputs(in, {}).ok()) std::exit(3); s.FinishInputs(); if (!s.UpdateShape(in.GetDuration()).ok()) std::exit(3);
  int n = 0; for (uint32_t c = 0; c < s.BrushCoatCount(); ++c) n += s.GetMesh(c).TriangleCount() > 0;
  return {ShapeDigest(s.CopyToStroke().GetShape()), n};
}
static int Filled(const ink::PartitionedMesh& p) { int n = 0; for (uint32_t g = 0; g < p.RenderGroupCount(); ++g) n += p.RenderGroupMeshes(g).size() > 0; return n; }
struct World {
  Trace& t; std::vector<std::optional<Stroke>> h; std::vector<int> fam;      // fam: which family handle h was last given (to name what it reports)
  explicit World(Trace& tr) : t(tr) {}
  int FamId(size_t i) { for (int f : {fam[i]}) if (h[i]->GetBrushFamily().GetCoats().size() == Fam(f).GetCoats().size()) {
      auto a = h[i]->GetBrushFamily().GetCoats(), b = Fam(f).GetCoats(); bool eq = true; for (size_t c = 0; c < a.size(); ++c) eq = eq && a[c].tips == b[c].tips && a[c].paint == b[c].paint;
      if (eq && h[i]->GetBrushFamily().GetInputModel().index() == Fam(f).GetInputModel().index()) return f; } return 0; }
  int InsId(const Stroke& s) { for (int i = 0; i <= 4; ++i) if (SameInputs(s.GetInputs(), InsOf(i))) return i; return -1; }
  void Start(int n, int f) { h.clear(); fam.clear(); for (int i = 0; i < n; ++i) { h.emplace_back(Stroke(*ink::Brush::Create(Fam(f), ColorOf(1), 5, 0.5f))); fam.push_back(f); } t.Reset(); Log(J("call").S("f", "make").I("h", 1).A("fam", V3(f)).I("color", 1).F("size", 5).F("eps", 0.5f).I("ins", 0).I("code", 0)); }
  static std::vector<int> V3(int f) { return {f / 100, f / 10 % 10, f % 10}; }
  void Log(J j) {
    std::vector<J> st;
    for (size_t i = 0; i < h.size(); ++i) {
      auto& s = *h[i]; auto& b = s.GetBrush();
      auto again = Stroke(b, s.GetInputs().MakeDeepCopy()); int fresh = ShapeDigest(again.GetShape()); auto live = Draw(b, s.GetInputs());
      st.push_back(J().A("fam", V3(FamId(i))).I("color", ColorId(b.GetColor())).F("size", b.GetSize()).F("eps", b.GetEpsilon()).I("ins", InsId(s)).I("g", ShapeDigest(s.GetShape())).I("fresh", fresh).I("live", live.g).I("filled", Filled(again.GetShape())).I("drawn", live.filled).I("groups", s.GetShape().RenderGroupCount()).I("coats", b.CoatCount()).F("dur", s.GetInputDuration().ToSeconds()).F("durp", s.GetInputs().GetDuration().ToSeconds()));
    }
    t(j.A("st", st));
  }
  void Do(const std::vector<std::string>& o) {
    auto n = [&](size_t i) { return std::stoi(o[i]); };
    size_t i = size_t(n(1) - 1); Stroke& s = *h[i]; const std::string& f = o[0]; J j("call"); j.S("f", f).I("h", n(1)); int code = 0;
    if (f == "brush") { auto b = ink::Brush::Create(Fam(n(2)), ColorOf(n(3)), SizeOf(n(4)), EpsOf(n(5))); code = int(b.status().code()); if (b.ok()) { s.SetBrush(*b); fam[i] = n(2); } j.A("fam", V3(n(2))).I("color", n(3)).F("size", SizeOf(n(4))).F("eps", EpsOf(n(5))); }
    else if (f == "family") { fam[i] = n(2); s.SetBrushFamily(Fam(n(2))); j.A("fam", V3(n(2))); }
    else if (f == "color") { s.SetBrushColor(ColorOf(n(2))); j.I("color", n(2)); }
    else if (f == "size") { code = int(s.SetBrushSize(SizeOf(n(2))).code()); j.F("size", SizeOf(n(2))); }
    else if (f == "eps") { code = int(s.SetBrushEpsilon(EpsOf(n(2))).code()); j.F("eps", EpsOf(n(2))); }
    else if (f == "inputs") { s.SetInputs(InsOf(n(2))); j.I("ins", n(2)); }
    else if (f == "own") { s.SetInputs(s.GetInputs()); }
    else if (f == "ownbrush") { s.SetBrush(s.GetBrush()); }
    else if (f == "ownfam") { s.SetBrushFamily(s.GetBrushFamily()); }
    else if (f == "ownboth") { s.SetBrushAndInputs(s.GetBrush(), s.GetInputs()); }
    else if (f == "theirs") { s.SetInputs(h[size_t(n(2) - 1)]->GetInputs()); j.I("j", n(2)); }
    else if (f == "copy") { s = *h[size_t(n(2) - 1)]; fam[i] = fam[size_t(n(2) - 1)]; j.I("j", n(2)); }
    else if (f == "cctor") { Stroke c(*h[size_t(n(2) - 1)]); h[i].emplace(std::move(c)); fam[i] = fam[size_t(n(2) - 1)]; j.I("j", n(2)); }
    else if (f == "both") { auto b = *ink::Brush::Create(Fam(n(2)), ColorOf(n(3)), SizeOf(n(4)), EpsOf(n(5))); s.SetBrushAndInputs(b, InsOf(n(6))); fam[i] = n(2); j.A("fam", V3(n(2))).I("color", n(3)).F("size", SizeOf(n(4))).F("eps", EpsOf(n(5))).I("ins", n(6)); }
    else if (f == "given") { s = Stroke(s.GetBrush(), s.GetInputs(), GivenShape(fam[i] / 100)); j.I("tips", fam[i] / 100); }
    else if (f == "new") { auto b = *ink::Brush::Create(Fam(n(2)), ColorOf(n(3)), SizeOf(n(4)), EpsOf(n(5))); s = Stroke(b, InsOf(n(6))); fam[i] = n(2); j.A("fam", V3(n(2))).I("color", n(3)).F("size", SizeOf(n(4))).F("eps", EpsOf(n(5))).I("ins", n(6)); }
    else std::exit(3);
    Log(j.I("code", code));
  }
};
int main() {
  Trace t; World w(t);
  size_t seen = 0;
  for (auto& b : Behaviours()) { size_t n = 1; for (auto& o : b) n = std::max(n, size_t(std::stoi(o[1]))); for (auto& o : b) if (o[0] == "copy") n = std::max(n, size_t(std::stoi(o[2]))); if (n > 1 && !Thorough() && ++seen % 12) continue; w.Start(int(n), 111); for (auto& o : b) w.Do(o); }
  Rng g(Seed());
  const int fams[] = {111, 121, 112, 113, 211, 311, 313, 411, 511, 512, 513, 611, 711, 721};
  for (int r = 0; r < Scale(120, 3000); ++r) {
    w.Start(NH, g.Pick(fams));
    for (int k = 0; k < 20; ++k) {
      auto S = [](int x) { return std::to_string(x); };
      std::string a = S(g.Int(1, NH)), f = S(g.Pick(fams)), c = S(g.Int(1, 3)), z = S(g.Int(1, 9)), e = S(g.Int(1, 9)), i = S(g.Int(0, 4)), j = S(g.Int(1, NH)), big = S(g.Chance(1, 2) ? 2 : 1), sm = S(g.Chance(1, 2) ? 1 : 8);
      switch (g.Int(0, 15)) {
        case 0: w.Do({"brush", a, f, c, z, e}); break;
        case 1: w.Do({"brush", a, f, c, big, sm}); break;
        case 2: w.Do({"family", a, f}); break;
        case 3: w.Do({"color", a, c}); break;
        case 4: case 5: w.Do({"size", a, z}); break;
        case 6: case 7: w.Do({"eps", a, e}); break;
        case 8: w.Do({"inputs", a, i}); break;
        case 9: w.Do({"own", a}); break;
        case 10: w.Do({g.Chance(1, 2) ? "copy" : "cctor", a, j}); break;
        case 11: w.Do({g.Chance(1, 2) ? "both" : "new", a, f, c, big, sm, i}); break;
        case 12: w.Do({"given", a}); break;
        case 13: w.Do({"theirs", a, j}); break;
        default: { const char* s[] = {"ownbrush", "ownfam", "ownboth"}; w.Do({s[g.Int(0, 2)], a}); }
      }
    }
  }
}
