// Names of mesh formats' enumerators, and how formats are written in traces.
#ifndef VERIF_DRIVERS_MESH_VALUES_H_
#define VERIF_DRIVERS_MESH_VALUES_H_
#include "common.h"
#include "ink/geometry/mesh_format.h"
namespace verif {
using ink::MeshFormat;
using MT = MeshFormat::AttributeType; using MI = MeshFormat::AttributeId; using MX = MeshFormat::IndexFormat;
inline const std::vector<std::pair<MT, const char*>> kTypes = {{MT::kFloat1Unpacked, "kFloat1Unpacked"}, {MT::kFloat1PackedIn1UnsignedByte, "kFloat1PackedIn1UnsignedByte"}, {MT::kFloat2Unpacked, "kFloat2Unpacked"}, {MT::kFloat2PackedIn1Float, "kFloat2PackedIn1Float"},
  {MT::kFloat2PackedIn3UnsignedBytes_XY12, "kFloat2PackedIn3UnsignedBytes_XY12"}, {MT::kFloat2PackedIn4UnsignedBytes_X12_Y20, "kFloat2PackedIn4UnsignedBytes_X12_Y20"}, {MT::kFloat3Unpacked, "kFloat3Unpacked"}, {MT::kFloat3PackedIn1Float, "kFloat3PackedIn1Float"},
  {MT::kFloat3PackedIn2Floats, "kFloat3PackedIn2Floats"}, {MT::kFloat3PackedIn4UnsignedBytes_XYZ10, "kFloat3PackedIn4UnsignedBytes_XYZ10"}, {MT::kFloat4Unpacked, "kFloat4Unpacked"}, {MT::kFloat4PackedIn1Float, "kFloat4PackedIn1Float"},
  {MT::kFloat4PackedIn2Floats, "kFloat4PackedIn2Floats"}, {MT::kFloat4PackedIn3Floats, "kFloat4PackedIn3Floats"}};
inline const std::vector<std::pair<MI, const char*>> kIds = {{MI::kPosition, "kPosition"}, {MI::kColorShiftHsl, "kColorShiftHsl"}, {MI::kOpacityShift, "kOpacityShift"}, {MI::kTexture, "kTexture"}, {MI::kSideDerivative, "kSideDerivative"}, {MI::kSideLabel, "kSideLabel"},
  {MI::kForwardDerivative, "kForwardDerivative"}, {MI::kForwardLabel, "kForwardLabel"}, {MI::kSurfaceUv, "kSurfaceUv"}, {MI::kCustom0, "kCustom0"}, {MI::kCustom1, "kCustom1"}, {MI::kCustom2, "kCustom2"}, {MI::kCustom3, "kCustom3"}, {MI::kCustom4, "kCustom4"},
  {MI::kCustom5, "kCustom5"}, {MI::kCustom6, "kCustom6"}, {MI::kCustom7, "kCustom7"}, {MI::kCustom8, "kCustom8"}, {MI::kCustom9, "kCustom9"}};
inline const std::vector<std::pair<MX, const char*>> kIdx = {{MX::k16BitUnpacked16BitPacked, "k16BitUnpacked16BitPacked"}, {MX::k32BitUnpacked16BitPacked, "k32BitUnpacked16BitPacked"}};
template <typename E> std::string MName(const std::vector<std::pair<E, const char*>>& ns, E e) { for (auto& [v, n] : ns) if (v == e) return n; return "?"; }
template <typename E> E MVal(const std::vector<std::pair<E, const char*>>& ns, const std::string& s, int other) { for (auto& [v, n] : ns) if (s == n) return v; return static_cast<E>(other); }
using Attrs = std::vector<std::pair<MT, MI>>;
inline std::string JAttrs(const Attrs& as) { std::vector<J> v; for (auto& [t, i] : as) v.push_back(J().S("t", MName(kTypes, t)).S("id", MName(kIds, i))); return J::Arr(v); }
inline std::string JShape(const MeshFormat& f) {
  std::vector<J> v; for (auto& a : f.Attributes()) v.push_back(J().S("t", MName(kTypes, a.type)).S("id", MName(kIds, a.id)).I("uo", a.unpacked_offset).I("po", a.packed_offset).I("uw", a.unpacked_width).I("pw", a.packed_width));
  return J().Raw("attrs", J::Arr(v)).I("pos", f.PositionAttributeIndex()).I("us", f.UnpackedVertexStride()).I("ps", f.PackedVertexStride()).S("idx", MName(kIdx, f.GetIndexFormat())).I("is", f.UnpackedIndexStride()).Str();
}
inline Attrs AttrsOf(const MeshFormat& f) { Attrs a; for (auto& x : f.Attributes()) a.push_back({x.type, x.id}); return a; }
}  // namespace verif
#endif
