// C11: mesh formats made from every kind of list, taken apart and compared.
#include <algorithm>
#include <map>
#include "mesh_values.h"
#include "absl/hash/hash.h"
#include "absl/strings/str_cat.h"
using namespace verif;
int main() {
  Trace t; t.Auto(4000); t.Reset();
  Rng g(Seed());
  for (auto& [ty, n] : kTypes) {
    auto b = MeshFormat::PackedBitsPerComponent(ty); std::vector<int> bits; if (b) for (auto x : b->Values()) bits.push_back(x);
    t(J("type").S("t", n).I("n", MeshFormat::ComponentCount(ty)).A("bits", bits).B("unpacked", MeshFormat::IsUnpackedType(ty)).B("floats", MeshFormat::IsPackedAsFloat(ty)).I("us", MeshFormat::UnpackedAttributeSize(ty)).I("ps", MeshFormat::PackedAttributeSize(ty)));
  }
  t(J("limits").I("max", MeshFormat::MaxAttributes()).I("i16", MeshFormat::UnpackedIndexSize(MX::k16BitUnpacked16BitPacked)).I("i32", MeshFormat::UnpackedIndexSize(MX::k32BitUnpacked16BitPacked)));
  t(J("default").Raw("shape", JShape(MeshFormat())));
  std::vector<std::pair<Attrs, MeshFormat>> good;
  auto create = [&](const Attrs& as, MX x) -> absl::StatusOr<MeshFormat> {
    auto f = MeshFormat::Create(as, x); J j("create"); j.Raw("as", JAttrs(as)).S("idx", MName(kIdx, x)).B("ok", f.ok()).I("code", int(f.status().code())); if (f.ok()) j.Raw("shape", JShape(*f)); t(j);
    if (f.ok() && good.size() < 4000) good.push_back({as, *f}); return f;
  };
  auto without = [&](const Attrs& as, const MeshFormat& f, const std::vector<MI>& r) {
    auto w = f.WithoutAttributes(r); std::vector<std::string> rs; for (auto i : r) rs.push_back(MName(kIds, i));
    J j("without"); j.Raw("as", JAttrs(as)).S("idx", MName(kIdx, f.GetIndexFormat())).A("rem", rs).B("ok", w.ok()).I("code", int(w.status().code())).Raw("before", JShape(f)); if (w.ok()) j.Raw("shape", JShape(*w)); t(j);
  };
  auto pair = [&](const MeshFormat& a, const MeshFormat& b) {
    t(J("pair").Raw("as", JAttrs(AttrsOf(a))).Raw("bs", JAttrs(AttrsOf(b))).S("i", MName(kIdx, a.GetIndexFormat())).S("j", MName(kIdx, b.GetIndexFormat())).B("eq", a == b).B("ne", a != b).B("packed", MeshFormat::IsPackedEquivalent(a, b)).B("unpacked", MeshFormat::IsUnpackedEquivalent(a, b))
      .B("hash", absl::Hash<MeshFormat>()(a) == absl::Hash<MeshFormat>()(b)).B("text", absl::StrCat(a) == absl::StrCat(b)));
  };
  static const std::vector<int> badt = {14, 15, 16, 64, 90, 127, 128, 255}, badi = {19, 20, 25, 64, 127};
  std::map<std::string, std::optional<MeshFormat>> seen;
  for (auto& b : Behaviours()) {
    Attrs as; std::vector<MI> r;
    for (auto& o : b) { if (o[0] == "a") as.push_back({MVal(kTypes, o[1], g.Pick(badt)), MVal(kIds, o[2], g.Pick(badi))}); else if (o[0] == "r") r.push_back(MVal(kIds, o[1], g.Pick(badi))); }
    std::string key = JAttrs(as); auto it = seen.find(key);
    if (it == seen.end()) { auto f = create(as, g.Pick(kIdx).first); it = seen.emplace(key, f.ok() ? std::optional<MeshFormat>(*f) : std::nullopt).first; }
    if (it->second && !r.empty()) without(as, *it->second, r);
  }
  // single changes to large valid lists
  auto ids = kIds; auto shuffle = [&](auto& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[size_t(g.Int(0, int(i) - 1))]); };
  auto list = [&](int n) { Attrs as; shuffle(ids); for (int i = 0; i < n && i < int(ids.size()); ++i) as.push_back({g.Pick(kTypes).first, ids[size_t(i)].first}); return as; };
  auto valid = [&](int n) {
    Attrs as = list(n); static const MT pos[] = {MT::kFloat2Unpacked, MT::kFloat2PackedIn1Float, MT::kFloat2PackedIn3UnsignedBytes_XY12, MT::kFloat2PackedIn4UnsignedBytes_X12_Y20};
    bool has = false; for (auto& a : as) if (a.second == MI::kPosition) { a.first = pos[g.Int(0, 3)]; has = true; }
    if (!has && !as.empty()) as[size_t(g.Int(0, int(as.size()) - 1))] = {pos[g.Int(0, 3)], MI::kPosition};
    return as;
  };
  for (int n = 0; n <= 19; ++n) for (int k = Scale(60, 800); k > 0; --k) {
    Attrs as = valid(n); create(as, g.Pick(kIdx).first);
    if (as.empty()) continue; auto pick = [&]() -> auto& { return as[size_t(g.Int(0, int(as.size()) - 1))]; };
    switch (g.Int(0, 5)) { case 0: pick().first = static_cast<MT>(g.Pick(badt)); break; case 1: pick().second = static_cast<MI>(g.Pick(badi)); break; case 2: pick().second = pick().second; break; case 3: { auto& a = pick(); if (a.second == MI::kPosition) a.second = MI::kCustom9; break; }
      case 4: for (auto& a : as) if (a.second == MI::kPosition) a.first = g.Pick(kTypes).first; break; default: as.push_back(pick()); }
    create(as, g.Pick(kIdx).first);
  }
  for (int k = Scale(3000, 40000); k > 0; --k) {
    Attrs as = valid(g.Int(1, 16)); auto f = MeshFormat::Create(as, g.Pick(kIdx).first); if (!f.ok()) std::exit(3);
    std::vector<MI> r; for (auto& a : as) if (a.second != MI::kPosition && g.Chance(1, 3)) r.push_back(a.second);
    if (!r.empty() && g.Chance(1, 5)) r.push_back(r[0]); if (g.Chance(1, 8)) r.push_back(MI::kPosition); if (g.Chance(1, 8)) r.push_back(g.Pick(kIds).first); shuffle(r);
    without(as, *f, r);
  }
  for (int k = Scale(8000, 100000); k > 0; --k) {
    Attrs as = valid(g.Int(1, g.Chance(1, 4) ? 16 : 4)), bs = as;
    switch (g.Int(0, 6)) {
      case 0: break;
      case 1: { auto& b = bs[size_t(g.Int(0, int(bs.size()) - 1))]; std::vector<MT> same; for (auto& [ty, n] : kTypes) if (MeshFormat::ComponentCount(ty) == MeshFormat::ComponentCount(b.first)) same.push_back(ty); b.first = g.Pick(same); break; }
      case 2: { auto& b = bs[size_t(g.Int(0, int(bs.size()) - 1))]; if (b.second != MI::kPosition) b.first = g.Pick(kTypes).first; break; }
      case 3: { auto& b = bs[size_t(g.Int(0, int(bs.size()) - 1))]; auto id = g.Pick(kIds).first; bool used = false; for (auto& x : bs) used = used || x.second == id; if (!used && b.second != MI::kPosition) b.second = id; break; }
      case 4: if (bs.size() > 1) { size_t i = size_t(g.Int(0, int(bs.size()) - 1)); if (bs[i].second != MI::kPosition) bs.erase(bs.begin() + long(i)); } break;
      case 5: if (bs.size() > 1) { size_t i = size_t(g.Int(1, int(bs.size()) - 1)); std::swap(bs[i], bs[i - 1]); } break;
      default: bs = valid(int(as.size()));
    }
    MX i = g.Pick(kIdx).first; auto a = MeshFormat::Create(as, i), b = MeshFormat::Create(bs, g.Chance(2, 3) ? i : g.Pick(kIdx).first); if (!a.ok() || !b.ok()) std::exit(3);
    pair(*a, *b);
  }
}
