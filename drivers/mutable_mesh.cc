// C12: mutable meshes against plain arrays, and what converting them accepts.
#include <algorithm>
#include "mesh_parts.h"
#include "ink/geometry/mesh.h"
#include "ink/geometry/mutable_mesh.h"
using namespace verif;
using ink::Mesh; using ink::MutableMesh; using ink::Point;
using Tri = std::array<uint32_t, 3>;
int main() {
  Trace t; Rng g(Seed());
  static const MT pos[] = {MT::kFloat2Unpacked, MT::kFloat2PackedIn1Float, MT::kFloat2PackedIn3UnsignedBytes_XY12, MT::kFloat2PackedIn4UnsignedBytes_X12_Y20};
  auto format = [&](bool first1) {
    Attrs as; as.push_back({g.Pick(pos), MI::kPosition}); int n = g.Int(0, 3);
    for (int i = 0; i < n; ++i) as.insert(as.begin() + g.Int(0, int(as.size())), {g.Pick(kTypes).first, kIds[size_t(i + 3)].first});
    if (first1) as.insert(as.begin(), {g.Chance(1, 2) ? MT::kFloat1Unpacked : MT::kFloat1PackedIn1UnsignedByte, MI::kOpacityShift});
    auto f = MeshFormat::Create(as, g.Pick(kIdx).first); if (!f.ok()) std::exit(3); return *f;
  };
  std::array<MutableMesh, 2> m;
  auto desc = [](const auto& x) {
    std::vector<std::string> vs, ts; auto as = x.Format().Attributes();
    for (uint32_t i = 0; i < x.VertexCount(); ++i) { std::vector<std::string> a; for (uint32_t k = 0; k < as.size(); ++k) a.push_back(J::Arr(VV(x.FloatVertexAttribute(i, k)))); std::string s = "["; for (auto& y : a) s += (s.size() > 1 ? "," : "") + y; vs.push_back(s + "]"); }
    for (uint32_t i = 0; i < x.TriangleCount(); ++i) ts.push_back(J::Arr(x.TriangleIndices(i)));
    auto join = [](auto& v) { std::string s = "["; for (auto& y : v) s += (s.size() > 1 ? "," : "") + y; return s + "]"; };
    std::vector<J> p; for (uint32_t i = 0; i < x.VertexCount(); ++i) { Point q = x.VertexPosition(i); p.push_back(J().I("x", V(q.x)).I("y", V(q.y))); }
    return J().Raw("as", JAttrs(AttrsOf(x.Format()))).S("idx", MName(kIdx, x.Format().GetIndexFormat())).I("nv", x.VertexCount()).I("nt", x.TriangleCount()).Raw("v", join(vs)).Raw("t", join(ts)).Raw("p", J::Arr(p));
  };
  auto obs = [&](J& j) {
    std::vector<J> o;
    for (auto& x : m) {
      J d = desc(x); d.I("vs", x.VertexStride()).I("is", x.IndexStride()).I("rv", x.RawVertexData().size()).I("ri", x.RawIndexData().size()); auto ok = x.ValidateTriangles(); d.B("valid", ok.ok()).I("code", int(ok.code()));
      std::vector<std::vector<int>> gt; for (uint32_t i = 0; i < x.TriangleCount(); ++i) { auto y = x.TriangleIndices(i); if (std::max({y[0], y[1], y[2]}) >= x.VertexCount()) { gt.push_back({}); continue; } auto q = x.GetTriangle(i); gt.push_back({V(q.p0.x), V(q.p0.y), V(q.p1.x), V(q.p1.y), V(q.p2.x), V(q.p2.y)}); }
      d.A("gt", gt); o.push_back(d);
    }
    j.Raw("obs", J::Arr(o)); t(j);
  };
  auto one = [&](std::string n) { return J("do").S("k", n); };
  auto fresh = [&](int s, const MeshFormat& f, bool reset) { if (reset) m[size_t(s)].Reset(f); else m[size_t(s)] = MutableMesh(f); J j = one("fresh"); j.I("s", s + 1).Raw("as", JAttrs(AttrsOf(f))).S("idx", MName(kIdx, f.GetIndexFormat())); obs(j); };
  auto av = [&](int s, float x, float y) { m[size_t(s)].AppendVertex({x, y}); J j = one("av"); j.I("s", s + 1).A("p", std::vector<int>{V(x), V(y)}); obs(j); };
  auto sp = [&](int s, int i, float x, float y) { m[size_t(s)].SetVertexPosition(uint32_t(i), {x, y}); J j = one("sp"); j.I("s", s + 1).I("i", i).A("p", std::vector<int>{V(x), V(y)}); obs(j); };
  auto sa = [&](int s, int i, int a, const std::vector<float>& v) { m[size_t(s)].SetFloatVertexAttribute(uint32_t(i), uint32_t(a), ToValues(v)); J j = one("sa"); j.I("s", s + 1).I("i", i).I("a", a).A("v", VV(ToValues(v))); obs(j); };
  auto tri = [&](const char* k, int s, int i, Tri y) { auto& x = m[size_t(s)]; std::string n = k; if (n == "at") x.AppendTriangleIndices(y); else if (n == "st") x.SetTriangleIndices(uint32_t(i), y); else x.InsertTriangleIndices(uint32_t(i), y); J j = one(n); j.I("s", s + 1).I("i", i).A("t", y); obs(j); };
  auto rs = [&](int s, int v, int n) { m[size_t(s)].Resize(uint32_t(v), uint32_t(n)); J j = one("rs"); j.I("s", s + 1).I("v", v).I("n", n); obs(j); };
  auto cl = [&](int s) { m[size_t(s)].Clear(); J j = one("cl"); j.I("s", s + 1); obs(j); };
  auto cn = [&](int s, int o) { m[size_t(s)] = m[size_t(o)].Clone(); J j = one("cn"); j.I("s", s + 1).I("o", o + 1); obs(j); };
  auto mv = [&](int s) { MutableMesh x = std::move(m[size_t(s)]); m[size_t(s)] = std::move(x); J j = one("mv"); j.I("s", s + 1); obs(j); };
  auto unit = [](size_t n, float o, float s) { Coding c; c.components.Resize(uint8_t(n)); for (size_t i = 0; i < n; ++i) c.components[int(i)] = {o, s}; return c; };
  // converting: attributes to leave out and parameters for those kept
  auto conv = [&](int s, const std::vector<MI>& om, const std::vector<std::optional<Coding>>& ps) {
    auto r = m[size_t(s)].AsMeshes(ps, om); std::vector<std::string> os; for (auto i : om) os.push_back(MName(kIds, i));
    J j = one("conv"); j.I("s", s + 1).A("om", os).Raw("ps", JParams(ps)).B("ok", r.ok()).I("n", r.ok() ? int(r->size()) : 0).I("triangles", [&] { int n = 0; if (r.ok()) for (auto& x : *r) n += int(x.TriangleCount()); return n; }()); obs(j);
    return r;
  };
  auto from = [&](int s, const Mesh& x) { m[size_t(s)] = MutableMesh::FromMesh(x); J j = one("from"); j.I("s", s + 1).Raw("mesh", desc(x).Str()); obs(j); };
  auto begin = [&](const MeshFormat& f) { t.Reset(); for (auto& x : m) x = MutableMesh(f); J j = one("begin"); j.Raw("as", JAttrs(AttrsOf(f))).S("idx", MName(kIdx, f.GetIndexFormat())); obs(j); };
  auto bs = Behaviours(); size_t stride = Thorough() ? 6 : 1, at = 0;
  for (auto& b : bs) {
    if (at++ % stride != Seed() % stride) continue;
    MeshFormat f = format(true); begin(f); std::vector<float> z(1);
    for (auto& o : b) {
      auto a = [&](size_t i) { return std::stoi(o[i]); }; int s = a(1) - 1;
      if (o[0] == "av") av(s, float(a(2)), -float(a(2))); else if (o[0] == "sp") sp(s, a(2), float(a(3)), -float(a(3))); else if (o[0] == "sa") sa(s, a(2), a(3), {float(a(4)) / 8});
      else if (o[0] == "at") tri("at", s, 0, {uint32_t(a(2)), uint32_t(a(3)), uint32_t(a(4))}); else if (o[0] == "st" || o[0] == "it") tri(o[0].c_str(), s, a(2), {uint32_t(a(3)), uint32_t(a(4)), uint32_t(a(5))});
      else if (o[0] == "rs") rs(s, a(2), a(3)); else if (o[0] == "cl") cl(s); else if (o[0] == "cn") cn(s, a(2) - 1);
    }
    if (g.Chance(1, 3)) conv(g.Int(0, 1), {}, {});
  }
  // long histories with all kinds of formats and values
  auto grid = [&]() { return float(g.Int(-800, 800)) / 8; };
  auto val = [&](int odd) { if (!g.Chance(1, odd)) return grid(); static const int big[] = {kVNaN, kVInf, -kVInf, kVMax, -kVMax, kV127, -kV127, kV126, -kV126}; return F(g.Pick(big)); };
  for (int k = Scale(220, 2500); k > 0; --k) {
    MeshFormat f = format(false); begin(f); int odd = g.Chance(1, 3) ? 12 : 1000000; int steps = g.Int(5, 45), nvmax = g.Int(3, 7);
    for (int i = 0; i < steps; ++i) {
      int s = g.Int(0, 1); auto& x = m[size_t(s)]; int nv = int(x.VertexCount()), nt = int(x.TriangleCount()), na = int(x.Format().Attributes().size());
      auto y = [&]() { int lim = g.Chance(1, 12) ? nv + 2 : nv; if (lim < 3 || g.Chance(1, 25)) { uint32_t big = g.Chance(1, 6) ? 65535 : 4; return Tri{uint32_t(g.Int(0, int(big))), uint32_t(g.Int(0, 4)), uint32_t(g.Int(0, 4))}; } Tri r; do { for (auto& q : r) q = uint32_t(g.Int(0, lim - 1)); } while (!g.Chance(1, 25) && (r[0] == r[1] || r[0] == r[2] || r[1] == r[2])); return r; };
      switch (g.Int(0, 19)) {
        case 0: case 1: case 2: case 3: if (nv < nvmax) av(s, val(odd), val(odd)); break;
        case 4: if (nv) sp(s, g.Int(0, nv - 1), val(odd), val(odd)); break;
        case 5: case 6: case 7: if (nv) { int a = g.Int(0, na - 1); std::vector<float> v; for (int c = MeshFormat::ComponentCount(x.Format().Attributes()[size_t(a)].type); c > 0; --c) v.push_back(val(odd)); sa(s, g.Int(0, nv - 1), a, v); } break;
        case 8: case 9: if (nt < 6) tri("at", s, 0, y()); break;
        case 10: if (nt < 6) tri("it", s, g.Int(0, nt), y()); break;
        case 11: if (nt) tri("st", s, g.Int(0, nt - 1), y()); break;
        case 12: if (g.Chance(1, 3)) rs(s, g.Int(0, nvmax), g.Int(0, 5)); break;
        case 13: if (g.Chance(1, 6)) cl(s); else if (g.Chance(1, 5)) fresh(s, format(false), g.Chance(2, 3)); break;
        case 14: cn(s, 1 - s); break;
        case 15: if (g.Chance(1, 3)) mv(s); break;
        case 16: case 17: case 18: {
          std::vector<MI> om; for (auto& a : x.Format().Attributes()) if (a.id != MI::kPosition && g.Chance(1, 3)) om.push_back(a.id); if (g.Chance(1, 15)) om.push_back(MI::kPosition); if (g.Chance(1, 15)) om.push_back(g.Pick(kIds).first); if (!om.empty() && g.Chance(1, 6)) om.push_back(om[0]);
          std::vector<std::optional<Coding>> ps;
          if (g.Chance(1, 2)) { for (auto& a : x.Format().Attributes()) { if (std::find(om.begin(), om.end(), a.id) != om.end()) continue; if (MeshFormat::IsUnpackedType(a.type) ? !g.Chance(1, 20) : g.Chance(1, 4)) { ps.push_back(std::nullopt); continue; }
              auto c = unit(g.Chance(1, 30) ? size_t(g.Int(0, 4)) : MeshFormat::ComponentCount(a.type), g.Chance(1, 3) ? -F(800) : F(-850), g.Chance(1, 2) ? 32 : g.Chance(1, 2) ? 16 : 4); if (g.Chance(1, 30) && c.components.Size()) c.components[0].scale = F(std::array<int, 4>{0, -8, kVInf, kVNaN}[size_t(g.Int(0, 3))]); if (g.Chance(1, 30) && c.components.Size()) c.components[0].offset = F(std::array<int, 4>{kVNaN, kVInf, 0, 400}[size_t(g.Int(0, 3))]); ps.push_back(c); }
            if (g.Chance(1, 20)) ps.push_back(std::nullopt); if (g.Chance(1, 20) && !ps.empty()) ps.pop_back(); }
          conv(s, om, ps); break; }
        default: {  // back from an immutable mesh: with steps of an eighth everything is kept exactly (or as little of it as the type's bits hold)
          if (!nt || !x.ValidateTriangles().ok()) break;
          auto r = x.AsMeshes({}, {}); if (r.ok() && !r->empty()) from(g.Int(0, 1), (*r)[0]);
        }
      }
    }
  }
}
