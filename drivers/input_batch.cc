// C01, C02: call sequences on ink::StrokeInputBatch handles; after every call everything every handle reports is recorded.
#include <memory>
#include "input_values.h"
#include "ink/geometry/affine_transform.h"
using namespace verif;
using ink::StrokeInput; using ink::StrokeInputBatch;
static const float kHalfPi = 1.5707964f, kTwoPi = 6.2831855f;
static StrokeInput Table(int k) {
  switch (k) {
    case 1: return MkIn(1, 0, 0, 0); case 2: return MkIn(1, 1, 0, 0); case 3: return MkIn(1, 0, 0, 1); case 4: return MkIn(2, 1, 0, 1); case 5: return MkIn(1, 1, 0, 1, 0, 0.5f);
    case 6: return MkIn(1, 1, 0, 1, 0.5f); case 7: return MkIn(1, NAN, 0, 1); case 8: return MkIn(3, 1, 0, 1, 1, 1, kHalfPi, kTwoPi); case 9: return MkIn(3, 1, 0, 0.5f, 1, 0, 0, 0);
    case 10: return MkIn(1, 1, 0, 1, 0, -1, 1); case 11: return MkIn(1, 1, 0, 1, 0, -1, -1, 1); case 12: return MkIn(1, 0, 0, 0.5f);
  }
  std::exit(3);
}
struct World {
  Trace& t; std::unique_ptr<StrokeInputBatch> b[4];
  explicit World(Trace& tr) : t(tr) { Start(); }
  void Start() { for (auto& p : b) p = std::make_unique<StrokeInputBatch>(); t.Reset(); }
  J Report(const StrokeInputBatch& c) {
    std::vector<In8> g, it;
    for (size_t i = 0; i < c.Size(); ++i) g.push_back(EncIn(c.Get(i)));
    int guard = 0;
    if (guard_post_) { for (auto p = c.begin(); p != c.end() && guard++ < 2000; p++) it.push_back(EncIn(*p)); }
    else { for (const StrokeInput& x : c) { if (guard++ >= 2000) break; it.push_back(EncIn(x)); } }
    guard_post_ = !guard_post_;
    auto u = c.GetStrokeUnitLength();
    float dp = g.empty() ? 0 : c.Get(c.Size() - 1).elapsed_time.ToSeconds() - c.Get(0).elapsed_time.ToSeconds();
    return J().A("c", g).A("it", it).I("size", long(c.Size())).B("empty", c.IsEmpty()).I("tool", int(c.GetToolType())).F("unit", u ? u->ToCentimeters() : 0.f).B("hasu", c.HasStrokeUnitLength())
        .B("hasp", c.HasPressure()).B("hast", c.HasTilt()).B("haso", c.HasOrientation()).F("dur", c.GetDuration().ToSeconds()).F("dp", dp);
  }
  bool guard_post_ = false;
  void Log(J j) { t(j.A("st", std::vector<J>{Report(*b[1]), Report(*b[2]), Report(*b[3])})); }
  J Call(const char* f, int h) { return J("call").S("f", f).I("h", h); }
  void Append(int h, const std::vector<StrokeInput>& v, int how) {
    absl::Status s = (v.size() == 1 && how == 0) ? b[h]->Append(v[0]) : b[h]->Append(absl::Span<const StrokeInput>(v));
    Log(Call("append", h).A("ins", EncIns(v)).I("code", int(s.code())));
  }
  void Create(int h, const std::vector<StrokeInput>& v) {
    auto s = StrokeInputBatch::Create(v); if (s.ok()) *b[h] = *s;
    Log(Call("create", h).A("ins", EncIns(v)).I("code", int(s.status().code())));
  }
  void Set(int h, const StrokeInput& v, int i) { if (size_t(i) >= b[h]->Size()) return; absl::Status s = b[h]->Set(size_t(i), v); Log(Call("set", h).A("ins", EncIns({v})).I("i", i).I("code", int(s.code()))); }
  void Erase(int h, int i, int n, bool to_end = false) {
    int size = int(b[h]->Size()); if (i > size) return;
    if (to_end) b[h]->Erase(size_t(i)); else b[h]->Erase(size_t(i), size_t(n));
    Log(Call("erase", h).I("i", i).I("n", to_end || i + n > size ? size - i : n).I("code", 0));
  }
  void Clear(int h) { b[h]->Clear(); Log(Call("clear", h).I("code", 0)); }
  void Copy(int h, int j) { *b[h] = *b[j]; Log(Call("copy", h).I("j", j).I("code", 0)); }
  void CCtor(int h, int j) { auto p = std::make_unique<StrokeInputBatch>(*b[j]); b[h] = std::move(p); Log(Call("cctor", h).I("j", j).I("code", 0)); }
  void Deep(int h, int j) { *b[h] = b[j]->MakeDeepCopy(); Log(Call("deep", h).I("j", j).I("code", 0)); }
  void Move(int h, int j, bool ctor) { if (h == j) return; if (ctor) b[h] = std::make_unique<StrokeInputBatch>(std::move(*b[j])); else *b[h] = std::move(*b[j]); *b[j] = StrokeInputBatch(); Log(Call("move", h).I("j", j).I("code", 0)); }
  void Join(int h, int j) { absl::Status s = b[h]->Append(*b[j]); Log(Call("join", h).I("j", j).I("code", int(s.code()))); }
  void Xform(int h, int kind) {
    // small integer maps of small integer positions: exact in float, and positions are permuted, shifted or flattened
    static const int m[6][6] = {{-1, 0, 1, 0, 1, 0}, {0, 1, 0, 1, 0, 0}, {1, 0, 4, 0, 1, -2}, {2, 1, 0, 0, 3, 1}, {0, -1, 2, 1, 0, 2}, {0, 0, 1, 0, 0, 1}};
    const int* a = m[kind];
    std::vector<std::vector<int>> np;
    for (size_t i = 0; i < b[h]->Size(); ++i) { auto p = b[h]->Get(i).position; np.push_back({Enc(a[0] * p.x + a[1] * p.y + a[2]), Enc(a[3] * p.x + a[4] * p.y + a[5])}); }
    b[h]->Transform(ink::AffineTransform(a[0], a[1], a[2], a[3], a[4], a[5]));
    Log(Call("xform", h).A("np", np).I("code", 0));
  }
};
static float Field(Rng& g, int kind) {   // 0 time, 1 unit, 2 pressure, 3 tilt, 4 orientation, 5 coordinate
  static const float bad[] = {NAN, INFINITY, -INFINITY, -1e-45f, -2.f, -0.5f, 3.4028235e38f, 1e30f, -1.0000001f, -0.99999994f};
  if (g.Chance(1, 3)) return g.Pick(bad);
  float top = kind == 2 ? 1.f : kind == 3 ? kHalfPi : kind == 4 ? kTwoPi : 1.f;
  switch (g.Int(0, 5)) { case 0: return 0.f; case 1: return -0.f; case 2: return top; case 3: return std::nextafterf(top, 100.f); case 4: return std::nextafterf(top, 0.f); default: return -1.f; }
}
int main() {
  Trace t; World w(t);
  bool c02 = std::string(Env("PROP", "C02")) == "C02";
  auto n = [](const std::vector<std::string>& o, size_t i) { return std::stoi(o[i]); };
  int how = 0;
  for (auto& b : Behaviours()) {
    w.Start();
    for (auto& o : b) {
      const std::string& f = o[0]; int h = n(o, 1); ++how;
      if (f == "append") w.Append(h, {Table(n(o, 2))}, how % 2);
      else if (f == "span") w.Append(h, {Table(n(o, 2)), Table(n(o, 3))}, 1);
      else if (f == "set") w.Set(h, Table(n(o, 2)), n(o, 3));
      else if (f == "erase") w.Erase(h, n(o, 2), n(o, 3));
      else if (f == "clear") w.Clear(h);
      else if (f == "copy") w.Copy(h, n(o, 2)); else if (f == "deep") w.Deep(h, n(o, 2)); else if (f == "move") w.Move(h, n(o, 2), how % 2); else if (f == "join") w.Join(h, n(o, 2));
      else if (f == "xform") w.Xform(h, 0); else std::exit(3);
    }
  }
  Rng g(Seed() + c02);
  // every single field value at the boundaries, appended, set and created, alone and after a valid input
  if (!c02) for (int kind = 0; kind < 7; ++kind) for (float v : {0.f, -0.f, -1.f, 1.f, std::nextafterf(1.f, 2.f), kHalfPi, std::nextafterf(kHalfPi, 9.f), kTwoPi, std::nextafterf(kTwoPi, 9.f), 1e-45f, -1e-45f, 3.4e38f, -3.4e38f, float(INFINITY), -float(INFINITY), float(NAN), -0.5f, 0.5f, std::nextafterf(-1.f, 0.f), std::nextafterf(-1.f, -2.f)})
    for (int full = 0; full < 2; ++full) {
      auto mk = [&](float time) { float f[7] = {3, 4, time, full ? 0.5f : 0, full ? 0.5f : -1, full ? 0.5f : -1, full ? 0.5f : -1}; return std::vector<float>(f, f + 7); };
      auto in = [](const std::vector<float>& f) { return MkIn(3, f[0], f[1], f[2], f[3], f[4], f[5], f[6]); };
      auto a = mk(0.25f), c = mk(0.5f); c[size_t(kind)] = v;
      if (std::isnan(c[2])) continue;   // Duration32 itself is checked separately
      w.Start(); w.Append(1, {in(c)}, 0); w.Append(1, {in(a)}, 0); w.Append(1, {in(c)}, 1); w.Set(1, in(c), 0); if (w.b[1]->Size()) w.Set(1, in(c), int(w.b[1]->Size()) - 1);
      w.Create(2, {in(a), in(c)}); w.Create(2, {in(c), in(a)}); w.Create(3, {in(c)}); w.Append(2, {in(a), in(c)}, 1);
    }
  if (!c02) for (int tool : {-128, -1, 0, 1, 2, 3, 4, 5, 127}) { w.Start(); w.Append(1, {MkIn(tool, 0, 0, 0)}, 0); w.Append(1, {MkIn(tool, 0, 0, 1)}, 1); w.Set(1, MkIn(tool, 5, 5, 5), 0); w.Append(1, {MkIn(1, 0, 0, 6)}, 0); w.Set(1, MkIn(tool, 5, 5, 5), 0); w.Create(2, {MkIn(tool, 0, 0, 0)}); }
  // random histories
  for (int r = 0; r < Scale(c02 ? 220 : 160, 4000); ++r) {
    w.Start();
    int fmt = g.Int(0, 63);
    auto rnd = [&](float lo, int mistakes) {
      int f = fmt; if (g.Chance(1, 8)) f = g.Int(0, 63);
      float tm = lo + 0.25f * float(g.Int(0, 2)); if (g.Chance(1, 12)) tm = lo - 0.5f;
      float u = f & 1 ? 0.5f : 0, p = f & 2 ? 0.25f * float(g.Int(0, 4)) : -1, ti = f & 4 ? 0.25f * float(g.Int(0, 4)) : -1, o = f & 8 ? 0.5f * float(g.Int(0, 12)) : -1, x = float(g.Int(-2, 2)), y = float(g.Int(-2, 2));
      if (mistakes && g.Chance(1, 10)) { switch (g.Int(0, 6)) { case 0: tm = Field(g, 0); if (std::isnan(tm)) tm = 1; break; case 1: u = Field(g, 1); break; case 2: p = Field(g, 2); break; case 3: ti = Field(g, 3); break; case 4: o = Field(g, 4); break; case 5: x = Field(g, 5); break; default: y = Field(g, 5); } }
      return MkIn(1 + (f >> 4) % 3, x, y, tm, u, p, ti, o);
    };
    for (int k = 0; k < 25; ++k) {
      int h = g.Int(1, c02 ? 3 : 1), j = g.Int(1, c02 ? 3 : 1);
      auto& b = *w.b[h];
      auto last = [&]() { return b.IsEmpty() ? 0.f : b.Get(b.Size() - 1).elapsed_time.ToSeconds(); };
      int op = g.Int(0, c02 ? 15 : 8);
      if (b.Size() > 14) op = 5;
      switch (op) {
        case 0: case 1: w.Append(h, {rnd(last(), !c02)}, 0); break;
        case 2: case 3: { std::vector<StrokeInput> v; float lo = last(); for (int m = g.Int(0, 4); m > 0; --m) { v.push_back(rnd(lo, !c02)); float x = v.back().elapsed_time.ToSeconds(); if (std::isfinite(x)) lo = x; } if (op == 2) w.Append(h, v, 1); else if (g.Chance(1, 4)) w.Create(h, v); break; }
        case 4: if (!b.IsEmpty()) { int i = g.Int(0, int(b.Size()) - 1); w.Set(h, rnd(b.Get(size_t(i)).elapsed_time.ToSeconds() - (g.Chance(1, 2) ? 0.25f : 0), !c02), i); } break;
        case 5: w.Erase(h, g.Int(0, int(b.Size())), g.Int(0, 6), g.Chance(1, 6)); break;
        case 6: if (g.Chance(1, 4)) w.Clear(h); break;
        case 7: if (!b.IsEmpty()) w.Set(h, rnd(0, 1), g.Int(0, int(b.Size()) - 1)); break;
        case 8: if (b.Size() > 1) w.Erase(h, g.Int(1, int(b.Size())), 99, g.Chance(1, 2)); break;
        case 9: w.Copy(h, j); break;
        case 10: w.CCtor(h, j); break;
        case 11: w.Deep(h, j); break;
        case 12: w.Move(h, j, g.Chance(1, 2)); break;
        case 13: case 14: w.Join(h, j); break;
        default: w.Xform(h, g.Int(0, 5));
      }
    }
  }
}
