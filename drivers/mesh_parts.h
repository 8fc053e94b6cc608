// Attribute values of meshes in traces: eighths, a few numbers standing for what is not finite or huge.
#ifndef VERIF_DRIVERS_MESH_PARTS_H_
#define VERIF_DRIVERS_MESH_PARTS_H_
#include <optional>
#include "mesh_values.h"
#include "ink/geometry/mesh_packing_types.h"
#include "ink/types/small_array.h"
namespace verif {
using Coding = ink::MeshAttributeCodingParams; using Values = ink::SmallArray<float, 4>; using Comp = Coding::ComponentCodingParams;
constexpr int kVNaN = 2147483647, kVInf = 2147483646, kVMax = 2147483645, kV127 = 2147483644, kV126 = 2147483643;
inline int V(float f) {
  if (std::isnan(f)) return kVNaN; int s = f < 0 ? -1 : 1; float a = std::fabs(f);
  if (std::isinf(f)) return s * kVInf; if (a == std::numeric_limits<float>::max()) return s * kVMax; if (a == 0x1p127f) return s * kV127; if (a == 0x1p126f) return s * kV126;
  double e = double(f) * 8; if (e == std::floor(e) && std::fabs(e) < 1e9) return int(e);
  return 2000000000 + Digest().F(f).Get() % 100000000;  // not in the grid
}
inline float F(int v) {
  int s = v < 0 ? -1 : 1, a = v < 0 ? -v : v;
  switch (a) { case kVNaN: return std::numeric_limits<float>::quiet_NaN(); case kVInf: return float(s) * std::numeric_limits<float>::infinity(); case kVMax: return float(s) * std::numeric_limits<float>::max(); case kV127: return float(s) * 0x1p127f; case kV126: return float(s) * 0x1p126f; }
  return float(v) / 8;
}
inline std::vector<int> VV(const Values& v) { std::vector<int> r; for (float f : v.Values()) r.push_back(V(f)); return r; }
inline Values ToValues(const std::vector<float>& v) { Values r(uint8_t(v.size())); for (size_t i = 0; i < v.size(); ++i) r[int(i)] = v[i]; return r; }
inline std::string JCoding(const Coding& c) { std::vector<J> v; for (auto& x : c.components.Values()) v.push_back(J().I("o", V(x.offset)).I("s", V(x.scale))); return J::Arr(v); }
inline std::string JParams(const std::vector<std::optional<Coding>>& ps) { std::vector<J> v; for (auto& p : ps) v.push_back(J().B("has", p.has_value()).Raw("c", p ? JCoding(*p) : "[]")); return J::Arr(v); }
}  // namespace verif
#endif
