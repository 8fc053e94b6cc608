// C14: partitions, immutable meshes made from arrays or from mutable meshes, and partitioned meshes with their groups and outlines.
#include <algorithm>
#include <map>
#include <set>
#include "mesh_parts.h"
#include "ink/geometry/internal/mesh_packing.h"
#include "ink/geometry/mesh.h"
#include "ink/geometry/mutable_mesh.h"
#include "ink/geometry/partitioned_mesh.h"
using namespace verif;
using ink::Mesh; using ink::MutableMesh; using ink::PartitionedMesh; using ink::Point;
using Tri = std::array<uint32_t, 3>; using Params = std::vector<std::optional<Coding>>; using Pair = PartitionedMesh::VertexIndexPair;
std::string Join(const std::vector<std::string>& v) { std::string s = "["; for (auto& y : v) s += (s.size() > 1 ? "," : "") + y; return s + "]"; }
int U(float f) { double d = double(f) * 8192; return std::fabs(d) < 1.9e9 ? int(std::llround(d)) : 2000000000; }
std::string JEnv(const ink::Envelope& e) { auto r = e.AsRect(); return r ? J::Arr(std::vector<int>{V(r->XMin()), V(r->YMin()), V(r->XMax()), V(r->YMax())}) : "[]"; }
std::vector<int> Up(Point p) { return {U(p.x), U(p.y)}; }
std::vector<std::string> IdNames(const std::vector<MI>& om) { std::vector<std::string> os; for (auto i : om) os.push_back(MName(kIds, i)); return os; }
// everything an immutable mesh reports
J Report(const Mesh& m) {
  auto as = m.Format().Attributes(); std::vector<std::string> xs, ts, gt, cp, lo, hi; std::vector<std::vector<int>> vp;
  for (uint32_t i = 0; i < m.VertexCount(); ++i) {
    std::vector<J> x;
    for (uint32_t a = 0; a < as.size(); ++a) {
      bool un = MeshFormat::IsUnpackedType(as[a].type); std::vector<int> k, u; for (float f : m.FloatVertexAttribute(i, a).Values()) u.push_back(un ? V(f) : U(f));
      if (!un) for (uint32_t p : m.PackedIntegersForFloatVertexAttribute(i, a).Values()) k.push_back(int(p));
      x.push_back(J().A("k", k).A("u", u));
    }
    xs.push_back(J::Arr(x)); bool un = MeshFormat::IsUnpackedType(as[m.VertexPositionAttributeIndex()].type); Point p = m.VertexPosition(i); vp.push_back(un ? std::vector<int>{V(p.x), V(p.y)} : Up(p));
  }
  bool un = MeshFormat::IsUnpackedType(as[m.VertexPositionAttributeIndex()].type); std::vector<std::vector<int>> g;
  for (uint32_t i = 0; i < m.TriangleCount(); ++i) { ts.push_back(J::Arr(m.TriangleIndices(i))); auto t = m.GetTriangle(i); std::vector<int> r; for (Point p : {t.p0, t.p1, t.p2}) for (float f : {p.x, p.y}) r.push_back(un ? V(f) : U(f)); g.push_back(r); }
  bool has = true; for (uint32_t a = 0; a < as.size(); ++a) { cp.push_back(JCoding(m.VertexAttributeUnpackingParams(a))); auto b = m.AttributeBounds(a); if (!b) { has = false; continue; } lo.push_back(J::Arr(VV(b->minimum))); hi.push_back(J::Arr(VV(b->maximum))); }
  return J().Raw("as", JAttrs(AttrsOf(m.Format()))).S("idx", MName(kIdx, m.Format().GetIndexFormat())).I("nv", m.VertexCount()).I("nt", m.TriangleCount()).Raw("x", Join(xs)).Raw("t", Join(ts)).A("gt", g).A("vp", vp).I("pos", m.VertexPositionAttributeIndex())
    .I("vs", m.VertexStride()).I("is", m.IndexStride()).I("rv", m.RawVertexData().size()).I("ri", m.RawIndexData().size()).Raw("cp", Join(cp)).Raw("b", J().B("has", has).Raw("lo", Join(lo)).Raw("hi", Join(hi)).Str()).Raw("bb", JEnv(m.Bounds()));
}
// a mutable mesh as it was put in
J Source(const MutableMesh& x) {
  std::vector<std::string> vs, ts; auto as = x.Format().Attributes();
  for (uint32_t i = 0; i < x.VertexCount(); ++i) { std::vector<std::string> a; for (uint32_t k = 0; k < as.size(); ++k) a.push_back(J::Arr(VV(x.FloatVertexAttribute(i, k)))); vs.push_back(Join(a)); }
  for (uint32_t i = 0; i < x.TriangleCount(); ++i) ts.push_back(J::Arr(x.TriangleIndices(i)));
  return J().Raw("as", JAttrs(AttrsOf(x.Format()))).S("idx", MName(kIdx, x.Format().GetIndexFormat())).Raw("v", Join(vs)).Raw("t", Join(ts));
}
std::string JPairs(absl::Span<const Pair> o) { std::vector<J> v; for (auto& p : o) v.push_back(J().I("m", p.mesh_index).I("v", p.vertex_index)); return J::Arr(v); }
std::vector<MI> Ids(const MeshFormat& f) { std::vector<MI> r; for (auto& a : f.Attributes()) r.push_back(a.id); return r; }

int main() {
  Trace t; t.Auto(1000); t.Reset(); Rng g(Seed()); auto bs = Behaviours();
  static const MT pos[] = {MT::kFloat2Unpacked, MT::kFloat2PackedIn1Float, MT::kFloat2PackedIn1Float, MT::kFloat2PackedIn3UnsignedBytes_XY12, MT::kFloat2PackedIn3UnsignedBytes_XY12, MT::kFloat2PackedIn4UnsignedBytes_X12_Y20};
  auto format = [&]() {
    Attrs as; as.push_back({g.Pick(pos), MI::kPosition}); int n = g.Int(0, 3);
    for (int i = 0; i < n; ++i) as.insert(as.begin() + g.Int(0, int(as.size())), {g.Pick(kTypes).first, kIds[size_t(i + 3)].first});
    auto f = MeshFormat::Create(as, g.Pick(kIdx).first); if (!f.ok()) std::exit(3); return *f;
  };
  auto simple = [](std::vector<std::pair<MT, MI>> as, MX x = MX::k16BitUnpacked16BitPacked) { auto f = MeshFormat::Create(as, x); if (!f.ok()) std::exit(3); return *f; };
  // ---------------------------------------------------------------- partitions
  auto part = [&](const std::vector<Tri>& ts, uint64_t max) {
    MX x = g.Pick(kIdx).first; std::vector<std::byte> data; for (auto& y : ts) for (uint32_t i : y) { if (x == MX::k16BitUnpacked16BitPacked) { uint16_t s = uint16_t(i); auto* p = reinterpret_cast<std::byte*>(&s); data.insert(data.end(), p, p + 2); } else { auto* p = reinterpret_cast<std::byte*>(&i); data.insert(data.end(), p, p + 4); } }
    auto ps = ink::mesh_internal::PartitionTriangles(data, x, max); std::vector<J> out; for (auto& p : ps) out.push_back(J().A("v", p.vertex_indices).A("t", p.triangles)); t(J("part").A("ts", ts).I("max", (long long)max).Raw("parts", J::Arr(out)));
  };
  auto num = [](const std::vector<std::string>& o, size_t i) { return uint32_t(std::stoul(o[i])); };
  for (auto& b : bs) if (b[0].size() == 3 && std::isdigit(b[0][0][0])) { std::vector<Tri> ts; for (auto& o : b) ts.push_back({num(o, 0), num(o, 1), num(o, 2)}); for (uint64_t max = 3; max <= 7; ++max) if (Thorough() || (ts[2][2] + ts[1][2] + max + Seed()) % 2) part(ts, max); }
  part({}, 3); part({}, 65536);
  for (int k = Scale(400, 6000); k > 0; --k) {
    int n = g.Int(1, 30), nv = g.Int(3, 25), spread = g.Int(2, 25), at = 0; std::vector<Tri> ts; uint32_t base = g.Chance(1, 3) ? uint32_t(g.Int(0, 65000)) : 0;
    while (int(ts.size()) < n) { at = g.Chance(1, 5) ? g.Int(0, nv - 1) : at; Tri y; for (auto& i : y) i = base + uint32_t(std::min(nv - 1, std::max(0, at + g.Int(-spread, spread)))); if (y[0] == y[1] || y[0] == y[2] || y[1] == y[2]) { at = g.Int(0, nv - 1); continue; } ts.push_back(y); at++; }
    part(ts, uint64_t(g.Chance(1, 8) ? 65536 : g.Int(3, 14)));
  }
  // ---------------------------------------------------------------- values on the grid
  auto grid = [&](int lim) { return float(g.Int(-lim, lim)) / 8; };
  auto val = [&](int lim, int odd) { if (!g.Chance(1, odd)) return grid(lim); static const int big[] = {kVNaN, kVInf, -kVInf, kVMax, -kVMax, kV127, -kV127, kV126, -kV126}; return F(g.Pick(big)); };
  auto custom = [&](size_t n, int lim) { Coding c; c.components.Resize(uint8_t(n)); for (size_t i = 0; i < n; ++i) c.components[int(i)] = {F(-8 * ((lim + 7) / 8) - 8 * g.Int(0, 3)), F(g.Pick(std::array<int, 8>{1, 2, 3, 4, 8, 16, 32, 80}))}; return c; };
  auto params = [&](const MeshFormat& f, const std::vector<MI>& om, int lim, int odd) {
    Params ps; if (g.Chance(1, 2)) return ps;
    for (auto& a : f.Attributes()) {
      if (std::find(om.begin(), om.end(), a.id) != om.end()) continue;
      if (MeshFormat::IsUnpackedType(a.type) ? !g.Chance(1, odd) : g.Chance(1, 4)) { ps.push_back(std::nullopt); continue; }
      auto c = custom(g.Chance(1, odd) ? size_t(g.Int(0, 4)) : MeshFormat::ComponentCount(a.type), lim);
      if (g.Chance(1, odd) && c.components.Size()) c.components[0].scale = F(std::array<int, 4>{0, -8, kVInf, kVNaN}[size_t(g.Int(0, 3))]); if (g.Chance(1, odd) && c.components.Size()) c.components[0].offset = F(std::array<int, 4>{kVNaN, kVInf, 0, 400}[size_t(g.Int(0, 3))]); ps.push_back(c);
    }
    if (g.Chance(1, odd)) ps.push_back(std::nullopt); if (g.Chance(1, odd) && !ps.empty()) ps.pop_back();
    return ps;
  };
  // ---------------------------------------------------------------- from arrays
  for (int k = Scale(700, 9000); k > 0; --k) {
    auto f = format(); int odd = g.Chance(1, 3) ? 15 : 1000000, lim = g.Pick(std::array<int, 4>{8, 60, 400, 800}); size_t nc = 0; for (auto& a : f.Attributes()) nc += MeshFormat::ComponentCount(a.type);
    int nv = g.Int(0, 6); std::vector<std::vector<float>> cs(nc); for (auto& c : cs) { c.resize(size_t(nv)); for (float& x : c) x = val(lim, odd * 3); }
    if (g.Chance(1, odd) && !cs.empty()) cs.pop_back(); if (g.Chance(1, odd)) cs.push_back(std::vector<float>(size_t(nv))); if (g.Chance(1, odd) && !cs.empty()) cs[size_t(g.Int(0, int(cs.size()) - 1))].push_back(0);
    std::vector<uint32_t> is; for (int i = g.Int(0, 4); i > 0; --i) for (int c = 0; c < 3; ++c) is.push_back(uint32_t(g.Int(0, g.Chance(1, odd) ? nv : std::max(0, nv - 1)))); if (nv == 0 && odd > 15) is.clear(); if (g.Chance(1, odd)) is.push_back(0); if (g.Chance(1, odd) && !is.empty()) is.pop_back();
    auto ps = params(f, {}, lim, odd);
    std::vector<absl::Span<const float>> sp(cs.begin(), cs.end()); auto r = Mesh::Create(f, sp, is, ps);
    std::vector<int> ls; bool same = cs.size() == nc; for (auto& c : cs) { ls.push_back(int(c.size())); same = same && c.size() == size_t(nv); }
    std::vector<std::string> vs; if (same) for (int i = 0; i < nv; ++i) { std::vector<std::string> v; size_t c = 0; for (auto& a : f.Attributes()) { std::vector<int> x; for (int m = MeshFormat::ComponentCount(a.type); m > 0; --m) x.push_back(V(cs[c++][size_t(i)])); v.push_back(J::Arr(x)); } vs.push_back(Join(v)); }
    J j("create"); j.Raw("as", JAttrs(AttrsOf(f))).S("idx", MName(kIdx, f.GetIndexFormat())).A("cs", ls).Raw("vs", Join(vs)).A("indices", is).Raw("ps", JParams(ps)).B("ok", r.ok()).I("code", int(r.status().code())); if (r.ok()) j.Raw("d", Report(*r).Str()); t(j);
  }
  // ---------------------------------------------------------------- from mutable meshes
  auto as = [&](const MutableMesh& m, const std::vector<MI>& om, const Params& ps) {
    auto r = m.AsMeshes(ps, om); std::vector<J> ds; if (r.ok()) for (auto& x : *r) ds.push_back(Report(x));
    t(J("as").Raw("m", Source(m).Str()).A("om", IdNames(om)).Raw("ps", JParams(ps)).B("ok", r.ok()).Raw("ds", J::Arr(ds)));
  };
  auto make = [&](const MeshFormat& f, int nv, int nt, int lim, int odd, bool ccw) {
    MutableMesh m(f); uint32_t off = g.Chance(1, 12) ? uint32_t(g.Int(1, 1000)) * 8192 : 0; bool y20 = f.Attributes()[f.PositionAttributeIndex()].type == MT::kFloat2PackedIn4UnsignedBytes_X12_Y20;
    for (int i = 0; i < nv; ++i) { m.AppendVertex({0, 0}); for (uint32_t a = 0; a < f.Attributes().size(); ++a) { std::vector<float> v; for (int c = MeshFormat::ComponentCount(f.Attributes()[a].type); c > 0; --c) v.push_back(val(lim, odd * 3) + (off && !y20 && a == f.PositionAttributeIndex() ? 8.f * float(off) : 0)); m.SetFloatVertexAttribute(uint32_t(i), a, ToValues(v)); } }
    for (int i = 0; i < nt; ++i) { if (nv < 3 && odd > 15) break; Tri y; do { for (auto& q : y) q = uint32_t(g.Int(0, g.Chance(1, odd) ? nv : std::max(0, nv - 1))); } while (nv >= 3 && !g.Chance(1, odd) && (y[0] == y[1] || y[0] == y[2] || y[1] == y[2]));
      if (ccw && y[0] < uint32_t(nv) && y[1] < uint32_t(nv) && y[2] < uint32_t(nv)) { Point a = m.VertexPosition(y[0]), b = m.VertexPosition(y[1]), c = m.VertexPosition(y[2]); if ((b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x) < 0) std::swap(y[1], y[2]); }
      m.AppendTriangleIndices(y); }
    return m;
  };
  auto omits = [&](const MeshFormat& f, int odd) { std::vector<MI> om; for (auto i : Ids(f)) if (i != MI::kPosition && g.Chance(1, 4)) om.push_back(i); if (g.Chance(1, odd)) om.push_back(MI::kPosition); if (g.Chance(1, odd)) om.push_back(g.Pick(kIds).first); if (!om.empty() && g.Chance(1, 6)) om.push_back(om[0]); return om; };
  for (int k = Scale(1200, 15000); k > 0; --k) {
    auto f = format(); int odd = g.Chance(1, 4) ? 15 : 1000000, lim = g.Pick(std::array<int, 4>{8, 60, 400, 800}); auto m = make(f, g.Int(0, 7), g.Int(0, 6), lim, odd, g.Chance(3, 4)); auto om = omits(f, odd); as(m, om, params(f, om, lim, odd));
  }
  // those flipped by rounding: from the specification, moved around and in other steps; and slivers
  auto whole = [&](int o, int s) { Coding c; c.components.Resize(2); c.components[0] = {F(o), F(s)}; c.components[1] = {F(o), F(s)}; return Params{c}; };
  auto flat = [&](const std::vector<std::array<int, 2>>& ps, const std::vector<Tri>& ts, const Params& prm) { MutableMesh m(simple({{pos[1 + 2 * g.Int(0, 1)], MI::kPosition}})); for (auto& p : ps) m.AppendVertex({F(p[0]), F(p[1])}); for (auto& y : ts) m.AppendTriangleIndices(y); as(m, {}, prm); };
  for (auto& b : bs) if (b[0].size() == 2 && std::isdigit(b[0][0][0])) {
    int s = g.Pick(std::array<int, 3>{1, 2, 4}), o = g.Int(-20, 20); std::vector<std::array<int, 2>> ps; for (auto& q : b) ps.push_back({o + s * int(num(q, 0)), o + s * int(num(q, 1))});
    flat(ps, ps.size() == 3 ? std::vector<Tri>{{0, 1, 2}} : std::vector<Tri>{{0, 1, 2}, {0, 2, 3}}, whole(o, 8 * s));
  }
  auto cross = [](const std::array<int, 2>& a, const std::array<int, 2>& b, const std::array<int, 2>& c) { return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]); };
  for (int k = Scale(1500, 20000); k > 0; --k) {
    bool dense = g.Chance(1, 2); int nv = dense ? g.Int(7, 14) : g.Int(3, 8), w = dense ? g.Int(6, 60) : g.Int(4, 40), h = dense || g.Chance(1, 2) ? w : g.Int(2, 10); std::vector<std::array<int, 2>> ps; for (int i = 0; i < nv; ++i) ps.push_back({g.Int(0, w), g.Int(0, h)}); std::vector<Tri> ts;
    for (int i = nv == 3 ? 1 : dense ? g.Int(20, 90) : g.Int(1, 6); i > 0; --i) { Tri y; do { for (auto& q : y) q = uint32_t(g.Int(0, nv - 1)); } while (y[0] == y[1] || y[0] == y[2] || y[1] == y[2]); if (cross(ps[y[0]], ps[y[1]], ps[y[2]]) < 0) std::swap(y[1], y[2]); ts.push_back(y); }
    flat(ps, ts, whole(-8 * g.Int(0, 1), g.Pick(std::array<int, 5>{8, 8, 8, 5, 16})));
  }
  for (int k = Scale(500, 8000); k > 0; --k) {  // slivers in steps of the bounds
    int dx = g.Int(50, 790), dy = g.Int(-790, 790), nt = g.Chance(1, 2) ? 1 : 3; std::vector<std::array<int, 2>> ps = {{-dx, -dy}, {dx, dy}}; std::vector<Tri> ts;
    for (int i = 0; i < nt; ++i) { int s = g.Int(-700, 700); ps.push_back({dx * s / 800 + g.Int(-1, 1), dy * s / 800 + g.Int(-1, 1)}); Tri y{0, 1, uint32_t(2 + i)}; if (i && g.Chance(1, 2)) y[0] = uint32_t(1 + i); if (cross(ps[y[0]], ps[y[1]], ps[y[2]]) < 0) std::swap(y[1], y[2]); ts.push_back(y); }
    flat(ps, ts, {});
  }
  // ---------------------------------------------------------------- more vertices than one mesh holds
  std::vector<uint32_t> sizes = {65535, 65536, 65537, 70000, 131072, 140000}; if (Thorough()) for (int i = 0; i < 8; ++i) sizes.push_back(uint32_t(g.Int(60000, 260000)));
  for (uint32_t nv : sizes) for (int kind = 0; kind < Scale(2, 4); ++kind) {
    auto f = simple({{MT::kFloat1Unpacked, MI::kCustom0}, {g.Pick(pos), MI::kPosition}}, MX::k32BitUnpacked16BitPacked); MutableMesh m(f);
    for (uint32_t i = 0; i < nv; ++i) { m.AppendVertex({float(i % 512), float(i / 512)}); m.SetFloatVertexAttribute(i, 0, {float(i)}); }
    uint32_t skip = g.Chance(1, 2) ? uint32_t(g.Int(0, int(nv) - 1)) : nv; std::vector<Tri> ts;
    if (kind == 0) { for (uint32_t i = 0; i + 2 < nv; ++i) { Tri y{i, i + 1, i + 2}; if (y[0] == skip || y[1] == skip || y[2] == skip) continue; ts.push_back(y); } for (int i = 0; i < 20; ++i) ts.insert(ts.begin() + g.Int(0, int(ts.size())), {0, nv - 1, nv / 2}); }
    else if (kind == 1) { for (uint32_t i = 0; i + 2 < nv; i += 3) ts.push_back({nv - 1 - i, nv - 3 - i, nv - 2 - i}); }
    else { for (uint32_t i = 0; i + 2 < nv; i += 2) ts.push_back({i, uint32_t(g.Int(0, 3)) + (i < 4 ? 4 : 0), i + 1}); for (auto& y : ts) if (y[0] == y[1] || y[1] == y[2]) y = {0, 5, 9}; }
    m.Resize(nv, uint32_t(ts.size())); for (uint32_t i = 0; i < ts.size(); ++i) m.SetTriangleIndices(i, ts[i]);
    std::set<uint32_t> used; Digest want; for (auto& y : ts) for (uint32_t i : y) { used.insert(i); want.U(i); }
    // outlines through vertices here and there, some of them twice, some in no triangle
    std::vector<std::vector<uint32_t>> os; for (int i = g.Int(0, 3); i > 0; --i) { os.emplace_back(); for (int c = g.Int(1, 12); c > 0; --c) os.back().push_back(g.Chance(1, 6) ? std::min(skip, nv - 1) : g.Chance(1, 4) ? uint32_t(g.Int(0, 5)) : uint32_t(g.Int(0, int(nv) - 1))); os.back().push_back(*used.begin()); }
    std::vector<absl::Span<const uint32_t>> sp(os.begin(), os.end()); auto pm = PartitionedMesh::FromMutableMesh(m, sp); auto r = m.AsMeshes();
    J j("big"); j.I("nv", nv).I("nt", ts.size()).I("used", used.size()).I("want", want.Get()).B("ok", r.ok() && pm.ok());
    if (r.ok() && pm.ok()) {
      Digest got, packed; std::vector<J> ms; std::map<uint32_t, std::vector<uint32_t>> ks; int conflicts = 0, off = 0, differ = 0; uint32_t mi = 0; bool un = MeshFormat::IsUnpackedType(f.Attributes()[1].type);
      for (auto& x : *r) {
        std::set<uint32_t> ids; float lo = 1e9f, hi = -1e9f; ink::Envelope e; 
        for (uint32_t i = 0; i < x.TriangleCount(); ++i) for (uint32_t c : x.TriangleIndices(i)) { uint32_t id = c < x.VertexCount() ? uint32_t(x.FloatVertexAttribute(c, 0)[0]) : 0xffffffff; got.U(id); ids.insert(c); }
        for (uint32_t i = 0; i < x.VertexCount(); ++i) { float v = x.FloatVertexAttribute(i, 0)[0]; lo = std::min(lo, v); hi = std::max(hi, v); uint32_t id = uint32_t(v); Point want_p{float(id % 512), float(id / 512)}, p = x.VertexPosition(i); e.Add(want_p); if (std::fabs(p.x - want_p.x) > 0.26f || std::fabs(p.y - want_p.y) > 0.26f) ++off; std::vector<uint32_t> k; if (un) k = {uint32_t(V(p.x)), uint32_t(V(p.y))}; else for (auto q : x.PackedIntegersForFloatVertexAttribute(i, 1).Values()) k.push_back(q); auto it = ks.insert({id, k}).first; if (it->second != k) ++conflicts; }
        auto b = *x.AttributeBounds(0); bool fine = b.minimum[0] == lo && b.maximum[0] == hi && JEnv(x.Bounds()) == JEnv(e);
        ms.push_back(J().I("nv", x.VertexCount()).I("nt", x.TriangleCount()).I("used", ids.size()).B("bounds", fine));
        if (mi >= pm->Meshes().size() || pm->Meshes()[mi].VertexCount() != x.VertexCount() || pm->Meshes()[mi].RawIndexData() != x.RawIndexData() || pm->Meshes()[mi].RawVertexData() != x.RawVertexData()) ++differ; ++mi;
      }
      std::vector<std::vector<uint32_t>> wo, go; for (auto& o : os) { wo.emplace_back(); for (uint32_t i : o) if (used.count(i)) wo.back().push_back(i); }
      for (uint32_t o = 0; o < pm->OutlineCount(0); ++o) { go.emplace_back(); uint32_t c = 0; for (auto& p : pm->Outline(0, o)) { auto& x = pm->RenderGroupMeshes(0)[p.mesh_index]; go.back().push_back(uint32_t(x.FloatVertexAttribute(p.vertex_index, 0)[0])); if (pm->OutlinePosition(0, o, c++) != x.VertexPosition(p.vertex_index)) ++differ; } if (c != pm->OutlineVertexCount(0, o)) ++differ; }
      j.I("got", got.Get()).Raw("ms", J::Arr(ms)).I("conflicts", conflicts).I("off", off).I("differ", differ).I("n", pm->Meshes().size()).A("wo", wo).A("go", go);
    }
    t(j);
  }
  for (uint32_t nv : {65535u, 65536u, 65537u}) { std::vector<float> x(nv), y(nv); for (uint32_t i = 0; i < nv; ++i) { x[i] = float(i % 256); y[i] = float(i / 256); } std::vector<absl::Span<const float>> sp = {x, y}; std::vector<uint32_t> is = {0, nv - 1, 1}; auto r = Mesh::Create(simple({{MT::kFloat2PackedIn1Float, MI::kPosition}}), sp, is);
    J j("wide"); j.I("nv", nv).B("ok", r.ok()); if (r.ok()) j.I("n", r->VertexCount()).A("t", r->TriangleIndices(0)).A("last", Up(r->VertexPosition(nv - 1))).A("want", Up({x[nv - 1], y[nv - 1]})); t(j); }
  // ---------------------------------------------------------------- groups of immutable meshes
  auto formats = std::vector<MeshFormat>{MeshFormat(), simple({{MT::kFloat2Unpacked, MI::kPosition}}), simple({{MT::kFloat1Unpacked, MI::kOpacityShift}, {MT::kFloat2Unpacked, MI::kPosition}}), simple({{MT::kFloat2Unpacked, MI::kPosition}}, MX::k32BitUnpacked16BitPacked)};
  struct G { std::vector<std::array<int, 3>> meshes; std::vector<std::vector<std::array<int, 2>>> outlines; };
  auto mesh = [&](int f, int n, int nt, int label) { std::vector<float> x, y, z(size_t(n), 0.f); for (int i = 0; i < n; ++i) { x.push_back(float(10 * label + i)); y.push_back(float(i % 2 + label % 3)); } std::vector<absl::Span<const float>> sp; if (f == 2) sp.push_back(z); sp.push_back(x); sp.push_back(y); std::vector<uint32_t> is; for (int i = 0; i < nt; ++i) for (int c = 0; c < 3; ++c) is.push_back(uint32_t((i + c) % n)); auto r = Mesh::Create(formats[size_t(f)], sp, is); if (!r.ok()) std::exit(3); return *r; };
  auto fnum = [&](const MeshFormat& f) { for (size_t i = 1; i < formats.size(); ++i) if (f == formats[i]) return int(i); return f == formats[0] ? 0 : -1; };
  auto label = [](const Mesh& m) { return m.VertexCount() ? int(m.VertexPosition(0).x / 10) : -1; };
  auto view = [&](J& j, const PartitionedMesh& p) {
    std::vector<J> gs; std::vector<int> all; for (auto& m : p.Meshes()) all.push_back(label(m));
    for (uint32_t i = 0; i < p.RenderGroupCount(); ++i) {
      std::vector<int> ls; for (auto& m : p.RenderGroupMeshes(i)) ls.push_back(label(m)); std::vector<std::string> os; std::vector<int> on; std::vector<std::vector<int>> op;
      for (uint32_t o = 0; o < p.OutlineCount(i); ++o) { os.push_back(JPairs(p.Outline(i, o))); on.push_back(int(p.OutlineVertexCount(i, o))); std::vector<int> q; for (uint32_t v = 0; v < p.OutlineVertexCount(i, o); ++v) { Point a = p.OutlinePosition(i, o, v); q.push_back(V(a.x)); q.push_back(V(a.y)); } op.push_back(q); }
      gs.push_back(J().I("f", fnum(p.RenderGroupFormat(i))).A("meshes", ls).Raw("outlines", Join(os)).A("on", on).A("op", op));
    }
    j.Raw("out", J::Arr(gs)).A("all", all).Raw("bb", JEnv(p.Bounds())).B("index", p.IsSpatialIndexInitialized());
  };
  auto groups = [&](const std::vector<G>& gs, int how) {
    int next = 1; std::vector<std::vector<Mesh>> ms; std::vector<std::vector<std::vector<Pair>>> os; std::vector<std::vector<absl::Span<const Pair>>> sp; std::vector<PartitionedMesh::MeshGroup> in; std::vector<J> say;
    for (auto& x : gs) {
      ms.emplace_back(); os.emplace_back(); std::vector<J> sm; std::vector<std::string> so; for (auto& y : x.meshes) { sm.push_back(J().I("f", y[0]).I("n", y[1]).I("t", y[2]).I("label", next)); ms.back().push_back(mesh(y[0], y[1], y[2], next++)); }
      for (auto& o : x.outlines) { os.back().emplace_back(); for (auto& p : o) os.back().back().push_back({uint16_t(p[0]), uint16_t(p[1])}); so.push_back(JPairs(os.back().back())); } say.push_back(J().Raw("meshes", J::Arr(sm)).Raw("outlines", Join(so)));
    }
    for (size_t i = 0; i < gs.size(); ++i) { sp.emplace_back(os[i].begin(), os[i].end()); } for (size_t i = 0; i < gs.size(); ++i) in.push_back({ms[i], sp[i]});
    auto r = how == 1 ? PartitionedMesh::FromMeshes(ms[0], sp[0]) : how == 2 ? absl::StatusOr<PartitionedMesh>(PartitionedMesh::WithEmptyGroups(uint32_t(gs.size()))) : how == 3 ? absl::StatusOr<PartitionedMesh>(PartitionedMesh()) : PartitionedMesh::FromMeshGroups(in);
    J j("groups"); j.I("how", how).Raw("gs", J::Arr(say)).B("ok", r.ok()).I("code", int(r.status().code())); if (r.ok()) { PartitionedMesh c = *r; view(j, c); } t(j);
  };
  size_t at = 0;
  for (auto& b : bs) if (b[0][0] == "g") { if (!Thorough() && (at++ + Seed()) % 3) continue; std::vector<G> gs; for (auto& o : b) { if (o[0] == "g") gs.emplace_back(); else if (o[0] == "m") gs.back().meshes.push_back({int(num(o, 1)), int(num(o, 2)), int(num(o, 3))}); else { gs.back().outlines.emplace_back(); for (size_t i = 1; i + 1 < o.size(); i += 2) gs.back().outlines.back().push_back({int(num(o, i)), int(num(o, i + 1))}); } } groups(gs, gs.size() == 1 && g.Chance(1, 2) ? 1 : 0); }
  for (int i = 0; i < 5; ++i) { groups(std::vector<G>(size_t(i)), 2); groups(std::vector<G>(size_t(i)), 0); } groups({}, 3);
  for (int k = Scale(500, 6000); k > 0; --k) {
    std::vector<G> gs(size_t(g.Int(1, 4))); int odd = g.Chance(1, 2) ? 20 : 1000000; int f = g.Int(1, 3);
    for (auto& x : gs) { for (int i = g.Int(0, 4); i > 0; --i) x.meshes.push_back({g.Chance(1, odd) ? g.Int(1, 3) : f, g.Int(3, 6), g.Chance(1, odd) ? 0 : g.Int(1, 3)}); if (g.Chance(1, 3)) f = g.Int(1, 3); if (!x.meshes.empty()) for (int i = g.Int(0, 3); i > 0; --i) { x.outlines.emplace_back(); for (int c = g.Int(g.Chance(1, odd) ? 0 : 1, 5); c > 0; --c) { int m = g.Int(0, int(x.meshes.size()) - (g.Chance(1, odd) ? 0 : 1)); int n = m < int(x.meshes.size()) ? x.meshes[size_t(m)][1] : 3; x.outlines.back().push_back({m, g.Int(0, n - (g.Chance(1, odd) ? 0 : 1))}); } } }
    groups(gs, gs.size() == 1 && g.Chance(1, 2) ? 1 : 0);
  }
  { auto one = mesh(1, 3, 1, 1), two = mesh(2, 3, 1, 2);
    for (size_t n : {size_t(65534), size_t(65535), size_t(65536), size_t(65537)}) for (int split = 0; split < 2; ++split) { std::vector<Mesh> a(split ? n / 2 : n, one), b(n - a.size(), two); std::vector<PartitionedMesh::MeshGroup> in = {{a, {}}, {b, {}}, {{}, {}}}; auto r = PartitionedMesh::FromMeshGroups(in); J j("many"); j.I("a", a.size()).I("b", b.size()).B("ok", r.ok()); if (r.ok()) { j.I("n", r->Meshes().size()).A("sizes", std::vector<size_t>{r->RenderGroupMeshes(0).size(), r->RenderGroupMeshes(1).size(), r->RenderGroupMeshes(2).size()}).I("first", r->RenderGroupMeshes(1).empty() ? 0 : label(r->RenderGroupMeshes(1)[0])); } t(j); } }
  // ---------------------------------------------------------------- groups of mutable meshes
  for (int k = Scale(700, 9000); k > 0; --k) {
    int odd = g.Chance(1, 4) ? 15 : 1000000, n = g.Int(1, 3); std::vector<MutableMesh> ms; std::vector<std::vector<std::vector<uint32_t>>> os; std::vector<std::vector<MI>> om; std::vector<Params> ps; std::vector<J> say;
    for (int i = 0; i < n; ++i) {
      auto f = format(); int lim = g.Pick(std::array<int, 3>{8, 60, 800}); ms.push_back(make(f, g.Int(0, 7), g.Int(0, 4), lim, odd, true)); om.push_back(omits(f, odd)); ps.push_back(params(f, om.back(), lim, odd)); os.emplace_back();
      int nv = int(ms.back().VertexCount()); for (int o = g.Int(0, 3); o > 0; --o) { os.back().emplace_back(); for (int c = g.Int(0, 6); c > 0; --c) if (nv) os.back().back().push_back(uint32_t(g.Int(0, nv - (g.Chance(1, odd) ? 0 : 1)))); }
      say.push_back(J().Raw("m", Source(ms.back()).Str()).A("om", IdNames(om.back())).Raw("ps", JParams(ps.back())).A("os", os.back()));
    }
    std::vector<std::vector<absl::Span<const uint32_t>>> sp; std::vector<PartitionedMesh::MutableMeshGroup> in; for (size_t i = 0; i < size_t(n); ++i) sp.emplace_back(os[i].begin(), os[i].end()); for (size_t i = 0; i < size_t(n); ++i) in.push_back({&ms[i], sp[i], om[i], ps[i]});
    auto r = n == 1 && g.Chance(1, 2) ? PartitionedMesh::FromMutableMesh(ms[0], sp[0], om[0], ps[0]) : PartitionedMesh::FromMutableMeshGroups(in);
    J j("mgroups"); j.Raw("gs", J::Arr(say)).B("ok", r.ok());
    if (r.ok()) { std::vector<J> out; for (uint32_t i = 0; i < r->RenderGroupCount(); ++i) { std::vector<J> ds; for (auto& m : r->RenderGroupMeshes(i)) ds.push_back(Report(m)); std::vector<std::string> o; for (uint32_t x = 0; x < r->OutlineCount(i); ++x) o.push_back(JPairs(r->Outline(i, x))); out.push_back(J().Raw("ds", J::Arr(ds)).Raw("outlines", Join(o)).Raw("as", JAttrs(AttrsOf(r->RenderGroupFormat(i)))).S("idx", MName(kIdx, r->RenderGroupFormat(i).GetIndexFormat()))); } j.Raw("out", J::Arr(out)).I("n", r->Meshes().size()); }
    t(j);
  }
}
