// C13: what packing makes of attribute values, bit by bit and for arbitrary floats.
#include <algorithm>
#include "mesh_parts.h"
#include "ink/geometry/internal/mesh_packing.h"
using namespace verif;
namespace mi = ink::mesh_internal;
int main() {
  Trace t; t.Auto(3000); t.Reset();
  Rng g(Seed());
  std::vector<std::pair<MT, std::string>> packed, unpacked;
  for (auto& [ty, n] : kTypes) (MeshFormat::IsUnpackedType(ty) ? unpacked : packed).push_back({ty, n});
  auto bitsof = [](MT ty) { std::vector<int> b; auto x = MeshFormat::PackedBitsPerComponent(ty); if (x) for (auto y : x->Values()) b.push_back(y); return b; };
  auto words = [](MT ty, const std::vector<std::byte>& b) {
    std::vector<int> w; if (!MeshFormat::IsPackedAsFloat(ty)) { for (auto x : b) w.push_back(int(x)); return w; }
    for (size_t i = 0; i + 4 <= b.size(); i += 4) { float f; std::memcpy(&f, &b[i], 4); w.push_back(f >= 0 && f < 16777216.f && f == std::floor(f) ? int(f) : -1); } return w;
  };
  auto bytes = [](MT ty, const std::vector<int>& w) {
    std::vector<std::byte> b; for (int x : w) { if (!MeshFormat::IsPackedAsFloat(ty)) b.push_back(std::byte(x)); else { float f = float(x); for (int i = 0; i < 4; ++i) b.push_back(reinterpret_cast<std::byte*>(&f)[i]); } } return b;
  };
  auto ints = [](const ink::SmallArray<uint32_t, 4>& v) { std::vector<long long> r; for (auto x : v.Values()) r.push_back(x > 2000000000u ? 2000000000 : x); return r; };
  // values and parameters in eighths: everything is exact
  auto pack = [&](MT ty, const Coding& c, const Values& v) {
    std::vector<std::byte> b(MeshFormat::PackedAttributeSize(ty), std::byte(g.Int(0, 255))); mi::PackAttribute(ty, c, v, absl::MakeSpan(b));
    std::vector<long long> single; for (int i = 0; i < v.Size(); ++i) single.push_back(mi::PackSingleFloat(c.components[i], v[i]));
    t(J("pack").S("t", MName(kTypes, ty)).Raw("c", JCoding(c)).A("v", VV(v)).A("w", words(ty, b)).A("single", single).A("ints", ints(mi::UnpackIntegersFromPackedAttribute(ty, b))).A("un", VV(mi::UnpackAttribute(ty, c, b))));
  };
  auto unit = [](size_t n, float o = 0, float s = 1) { Coding c; c.components.Resize(uint8_t(n)); for (size_t i = 0; i < n; ++i) c.components[int(i)] = {o, s}; return c; };
  for (auto& b : Behaviours()) for (auto& o : b) {  // a type and integers
    MT ty = MVal(kTypes, o[0], 99); std::vector<float> v; for (size_t i = 1; i < o.size(); ++i) v.push_back(float(std::stoi(o[i])));
    pack(ty, unit(v.size()), ToValues(v));
  }
  auto grid = [&](int lo, int hi) { return float(g.Int(lo, hi)) / 8; };
  for (int k = Scale(6000, 80000); k > 0; --k) {
    auto& [ty, n] = g.Pick(packed); auto bits = bitsof(ty); Coding c = unit(bits.size()); std::vector<float> v;
    for (size_t i = 0; i < bits.size(); ++i) {
      static const float ss[] = {.125f, .25f, .5f, 1, 2, 16}; float s = bits[i] > 12 ? ss[g.Int(0, 3)] : g.Pick(ss), o = grid(-4000, 4000); c.components[int(i)] = {o, s};
      int max = (1 << bits[i]) - 1, x = g.Chance(1, 4) ? g.Int(0, 1) * max : g.Int(0, max); float val = o + float(x) * s;
      if (s >= .25f && g.Chance(1, 2)) { float d = float(g.Int(1, int(s * 8) - 1)) / 8; if (x < max) val += d; }  // between steps
      v.push_back(val);
    }
    pack(ty, c, ToValues(v));
  }
  for (int k = Scale(3000, 40000); k > 0; --k) {
    auto& [ty, n] = g.Pick(packed); bool fl = MeshFormat::IsPackedAsFloat(ty); std::vector<int> w(MeshFormat::PackedAttributeSize(ty) / (fl ? 4 : 1));
    for (auto& x : w) x = g.Chance(1, 6) ? g.Int(0, 1) * (fl ? 16777215 : 255) : g.Int(0, fl ? 16777215 : 255);
    auto b = bytes(ty, w); Coding c = unit(bitsof(ty).size(), grid(-800, 800), .25f);
    t(J("raw").S("t", n).A("w", w).Raw("c", JCoding(c)).A("ints", ints(mi::UnpackIntegersFromPackedAttribute(ty, b))).A("un", VV(mi::UnpackAttribute(ty, c, b))));
  }
  auto any = [&]() { for (;;) { float f = g.Bits(); if (std::isfinite(f)) return f; } };
  auto encs = [](const Values& v) { std::vector<int> r; for (float f : v.Values()) r.push_back(Enc(f)); return r; };
  for (int k = Scale(300, 4000); k > 0; --k) {
    auto& [ty, n] = g.Pick(unpacked); std::vector<float> v; for (int i = MeshFormat::ComponentCount(ty); i > 0; --i) v.push_back(any());
    std::vector<std::byte> b(MeshFormat::PackedAttributeSize(ty)); mi::PackAttribute(ty, unit(v.size(), any(), -1), ToValues(v), absl::MakeSpan(b));
    t(J("plain").S("t", n).A("v", encs(ToValues(v))).A("un", encs(mi::UnpackAttribute(ty, unit(v.size(), 3, 7), b))).A("read", encs(mi::ReadFloatsFromUnpackedAttribute(ty, b))));
  }
  // arbitrary floats: bounds, a value between them, and how far off what comes back is (in 4096ths of a step; slack for rounding of floats themselves)
  auto span = [&](float& lo, float& hi) {
    switch (g.Int(0, 7)) {
      case 0: lo = any(); hi = any(); break;
      case 1: lo = 0; hi = std::ldexp(1 + g.Unit(), g.Int(-149, 127)); break;              // down to the smallest numbers
      case 2: hi = 0; lo = -std::ldexp(1 + g.Unit(), g.Int(-149, 127)); break;
      case 3: lo = std::ldexp(1 + g.Unit(), g.Int(-149, -100)); hi = std::ldexp(1 + g.Unit(), g.Int(-149, -100)); break;
      case 4: lo = float(g.Int(-1000, 1000)) * .37f; hi = lo + g.Unit() * 100; break;
      case 5: lo = float(g.Int(-1000, 1000)); hi = std::nextafter(lo, 2e9f); for (int i = g.Int(0, 20); i > 0; --i) hi = std::nextafter(hi, 2e9f); break;
      case 6: lo = hi = any(); break;
      default: lo = -1 - g.Unit(); hi = 1 + g.Unit();
    }
    if (lo > hi) std::swap(lo, hi);
  };
  for (int k = Scale(9000, 150000); k > 0; --k) {
    auto& [ty, n] = g.Pick(packed); auto bits = bitsof(ty); size_t c = size_t(g.Int(0, int(bits.size()) - 1)); float lo, hi; span(lo, hi);
    ink::MeshAttributeBounds b; b.minimum.Resize(uint8_t(bits.size())); b.maximum.Resize(uint8_t(bits.size()));
    for (size_t i = 0; i < bits.size(); ++i) { b.minimum[int(i)] = i == c ? lo : -1; b.maximum[int(i)] = i == c ? hi : 1; }
    auto p = mi::ComputeCodingParams(ty, b); bool over = !std::isfinite(hi - lo);
    J j("params"); j.S("t", n).I("c", int(c) + 1).F("lo", lo).F("hi", hi).B("over", over).B("ok", p.ok()).I("code", int(p.status().code()));
    if (!p.ok()) { t(j); continue; }
    auto q = p->components[int(c)]; double range = double(hi) - lo; int max = (1 << bits[c]) - 1;
    // the scale against range / max, in 2^20ths; steps finer than the smallest normal float are as they come
    double want = range > 0 ? range / max : 1; double r = q.scale / want * 1048576;
    j.B("tiny", q.scale <= std::numeric_limits<float>::min()).B("close", std::fabs(q.scale - want) < 0x1p-148).F("o", q.offset).F("s", q.scale).I("scale", r < 1e9 ? int(std::lround(r)) : 1000000000);
    if (!(q.scale > 0) || !std::isfinite(q.scale) || !std::isfinite(q.offset)) { j.B("bad", true); t(j); continue; }
    j.B("bad", false);
    auto put = [&](float v, const char* kk, const char* ee) {
      std::vector<float> vs(bits.size(), 0.f); for (size_t i = 0; i < bits.size(); ++i) if (i != c) vs[i] = g.Chance(1, 2) ? 1.f : -1.f; vs[c] = v;
      if (!(std::round((v - q.offset) / q.scale) >= 0 && std::round((v - q.offset) / q.scale) <= float(max))) { j.I(kk, -1).I(ee, 0); return v; }
      std::vector<std::byte> by(MeshFormat::PackedAttributeSize(ty)); mi::PackAttribute(ty, *p, ToValues(vs), absl::MakeSpan(by));
      auto i = mi::UnpackIntegersFromPackedAttribute(ty, by); auto u = mi::UnpackAttribute(ty, *p, by);
      double err = std::fabs(double(u[int(c)]) - v) / q.scale * 4096; j.I(kk, i[int(c)]).I(ee, err < 1e9 ? (long long)std::lround(err) : 1000000000);
      bool others = true; for (size_t m = 0; m < bits.size(); ++m) if (m != c) others = others && i[int(m)] == uint32_t(vs[m] > 0 ? (1 << bits[m]) - 1 : 0); j.B((std::string(kk) + "o").c_str(), others);
      return u[int(c)];
    };
    float x = float(lo + range * g.Unit()), y = float(lo + range * g.Unit()); x = std::clamp(x, lo, hi); y = std::clamp(y, lo, hi); if (x > y) std::swap(x, y);
    double ulp = std::max({std::ldexp(std::max(std::fabs(double(lo)), std::fabs(double(hi))), -23), 0x1p-149}), slack = ulp * 2 / q.scale * 4096 + 4096. * max / (1 << 23); bool fine = ulp * 4 <= q.scale;
    put(lo, "k0", "e0"); put(hi, "k1", "e1"); float u = put(x, "kx", "ex"); put(y, "ky", "ey"); put(u, "ku", "eu");
    j.I("slack", slack < 1e9 ? (long long)std::ceil(slack) : 1000000000).B("fine", fine); t(j);
  }
  // arrays of parameters: how many, for what, and whether they can say the bounds
  for (int k = Scale(3500, 40000); k > 0; --k) {
    Attrs as; static const MT pos[] = {MT::kFloat2Unpacked, MT::kFloat2PackedIn1Float, MT::kFloat2PackedIn3UnsignedBytes_XY12, MT::kFloat2PackedIn4UnsignedBytes_X12_Y20}; as.push_back({g.Pick(pos), MI::kPosition});
    int n = g.Int(0, 3); for (int i = 0; i < n; ++i) as.insert(as.begin() + g.Int(0, int(as.size())), {g.Pick(kTypes).first, kIds[size_t(i + 1)].first});
    auto f = MeshFormat::Create(as, MX::k16BitUnpacked16BitPacked); if (!f.ok()) std::exit(3);
    mi::AttributeBoundsArray b; std::vector<J> jb; size_t nb = as.size(); if (g.Chance(1, 12)) nb = size_t(g.Int(0, 5)); b.Resize(uint8_t(nb));
    for (size_t i = 0; i < nb; ++i) {
      int m = i < as.size() ? MeshFormat::ComponentCount(as[i].first) : 1; b[int(i)].minimum.Resize(uint8_t(m)); b[int(i)].maximum.Resize(uint8_t(m)); std::vector<int> l, h;
      for (int c = 0; c < m; ++c) { float lo = grid(-100, 100), hi = lo + grid(0, 400); if (g.Chance(1, 60)) { static const int big[] = {kVMax, kV127, kV126}; lo = -F(g.Pick(big)); hi = g.Chance(1, 2) ? F(g.Pick(big)) : hi; if (lo > hi) std::swap(lo, hi); }
        b[int(i)].minimum[c] = lo; b[int(i)].maximum[c] = hi; l.push_back(V(lo)); h.push_back(V(hi)); }
      jb.push_back(J().A("lo", l).A("hi", h));
    }
    std::vector<std::optional<Coding>> ps; if (!g.Chance(1, 8)) {
      size_t np = as.size(); if (g.Chance(1, 12)) np = size_t(g.Int(0, 5));
      for (size_t i = 0; i < np; ++i) {
        if (i >= as.size() || g.Chance(1, 3) || (MeshFormat::IsUnpackedType(as[i].first) && !g.Chance(1, 10))) { ps.push_back(std::nullopt); continue; }
        int m = MeshFormat::ComponentCount(as[i].first); Coding c = unit(size_t(g.Chance(1, 20) ? g.Int(0, 4) : m)); auto bits = bitsof(as[i].first);
        for (int x = 0; x < c.components.Size(); ++x) {
          float lo = i < nb && x < b[int(i)].minimum.Size() ? b[int(i)].minimum[x] : 0, hi = i < nb && x < b[int(i)].maximum.Size() ? b[int(i)].maximum[x] : 0; if (std::fabs(lo) > 1e6f || std::fabs(hi) > 1e6f) lo = hi = 0;
          float o = lo - (g.Chance(1, 2) ? 0 : grid(0, 40)), s = .125f; int max = x < int(bits.size()) ? (1 << bits[size_t(x)]) - 1 : 1; while (o + s * float(max) < hi) s *= 2;
          switch (g.Int(0, 24)) { case 0: o = lo + grid(-6, 9); break; case 1: s /= 2; break; case 2: o = hi - s * float(max) + grid(-9, 9); break; case 3: s = g.Chance(1, 2) ? 0 : -s; break; case 4: o = F(g.Chance(1, 2) ? kVNaN : kVInf); break; case 5: s = F(g.Chance(1, 2) ? kVNaN : kVInf); break; default: break; }
          if (std::fabs(s) < .125f && s != 0) s = .125f;
          c.components[x] = {o, s};
        }
        ps.push_back(c);
      }
    }
    auto r = mi::ComputeCodingParamsArray(*f, b, ps); J j("array"); j.Raw("as", JAttrs(as)).Raw("b", J::Arr(jb)).Raw("ps", JParams(ps)).B("ok", r.ok()).I("code", int(r.status().code()));
    if (r.ok()) { std::vector<J> out; for (auto& c : r->Values()) { std::vector<J> cs; for (auto& x : c.components.Values()) cs.push_back(J().I("o", V(x.offset)).F("s", x.scale).I("sv", V(x.scale))); out.push_back(J().Raw("c", J::Arr(cs))); } j.Raw("r", J::Arr(out)); 
      std::vector<J> single; for (size_t i = 0; i < as.size(); ++i) { auto d = mi::ComputeCodingParams(as[i].first, b[int(i)]); std::vector<J> cs; if (d.ok()) for (auto& x : d->components.Values()) cs.push_back(J().I("o", V(x.offset)).F("s", x.scale).I("sv", V(x.scale))); single.push_back(J().Raw("c", J::Arr(cs))); } j.Raw("d", J::Arr(single)); }
    t(j);
  }
}
