// Brush components: random ones near and across every limit, and how they are written in traces.
#ifndef VERIF_DRIVERS_PART_VALUES_H_
#define VERIF_DRIVERS_PART_VALUES_H_
#include <algorithm>
#include <optional>
#include "common.h"
#include "ink/brush/brush.h"
#include "ink/brush/brush_behavior.h"
#include "ink/brush/brush_coat.h"
#include "ink/brush/brush_family.h"
#include "ink/brush/brush_paint.h"
#include "ink/brush/brush_tip.h"
#include "ink/brush/easing_function.h"
namespace verif {
using ink::BrushBehavior; using ink::BrushCoat; using ink::BrushPaint; using ink::BrushTip; using ink::EasingFunction; using ink::Vec; using ink::Angle;
template <typename E> using Names = std::vector<std::pair<E, const char*>>;
template <typename E> std::string NameOf(const Names<E>& ns, E e) { for (auto& [v, n] : ns) if (v == e) return n; return "?"; }
#define VN(T, x) {T::x, #x}
using BSrc = BrushBehavior::Source; using BTgt = BrushBehavior::Target; using BOor = BrushBehavior::OutOfRange; using BProp = BrushBehavior::OptionalInputProperty;
inline const Names<BSrc> kSources = {VN(BSrc, kNormalizedPressure), VN(BSrc, kTiltInRadians), VN(BSrc, kTiltXInRadians), VN(BSrc, kTiltYInRadians), VN(BSrc, kOrientationInRadians), VN(BSrc, kOrientationAboutZeroInRadians),
  VN(BSrc, kSpeedInMultiplesOfBrushSizePerSecond), VN(BSrc, kVelocityXInMultiplesOfBrushSizePerSecond), VN(BSrc, kVelocityYInMultiplesOfBrushSizePerSecond), VN(BSrc, kDirectionInRadians), VN(BSrc, kDirectionAboutZeroInRadians),
  VN(BSrc, kNormalizedDirectionX), VN(BSrc, kNormalizedDirectionY), VN(BSrc, kDistanceTraveledInMultiplesOfBrushSize), VN(BSrc, kTimeOfInputInSeconds), VN(BSrc, kTimeOfInputInMillis),
  VN(BSrc, kPredictedDistanceTraveledInMultiplesOfBrushSize), VN(BSrc, kPredictedTimeElapsedInSeconds), VN(BSrc, kPredictedTimeElapsedInMillis), VN(BSrc, kDistanceRemainingInMultiplesOfBrushSize),
  VN(BSrc, kTimeSinceInputInSeconds), VN(BSrc, kTimeSinceInputInMillis), VN(BSrc, kAccelerationInMultiplesOfBrushSizePerSecondSquared), VN(BSrc, kAccelerationXInMultiplesOfBrushSizePerSecondSquared),
  VN(BSrc, kAccelerationYInMultiplesOfBrushSizePerSecondSquared), VN(BSrc, kAccelerationForwardInMultiplesOfBrushSizePerSecondSquared), VN(BSrc, kAccelerationLateralInMultiplesOfBrushSizePerSecondSquared),
  VN(BSrc, kInputSpeedInCentimetersPerSecond), VN(BSrc, kInputVelocityXInCentimetersPerSecond), VN(BSrc, kInputVelocityYInCentimetersPerSecond), VN(BSrc, kInputDistanceTraveledInCentimeters),
  VN(BSrc, kPredictedInputDistanceTraveledInCentimeters), VN(BSrc, kInputAccelerationInCentimetersPerSecondSquared), VN(BSrc, kInputAccelerationXInCentimetersPerSecondSquared), VN(BSrc, kInputAccelerationYInCentimetersPerSecondSquared),
  VN(BSrc, kInputAccelerationForwardInCentimetersPerSecondSquared), VN(BSrc, kInputAccelerationLateralInCentimetersPerSecondSquared)};
inline const Names<BTgt> kTargets = {VN(BTgt, kWidthMultiplier), VN(BTgt, kHeightMultiplier), VN(BTgt, kSizeMultiplier), VN(BTgt, kSlantOffsetInRadians), VN(BTgt, kPinchOffset), VN(BTgt, kRotationOffsetInRadians), VN(BTgt, kCornerRoundingOffset),
  VN(BTgt, kPositionOffsetXInMultiplesOfBrushSize), VN(BTgt, kPositionOffsetYInMultiplesOfBrushSize), VN(BTgt, kPositionOffsetForwardInMultiplesOfBrushSize), VN(BTgt, kPositionOffsetLateralInMultiplesOfBrushSize),
  VN(BTgt, kHueOffsetInRadians), VN(BTgt, kSaturationMultiplier), VN(BTgt, kLuminosity), VN(BTgt, kOpacityMultiplier)};
inline const Names<BOor> kOors = {VN(BOor, kClamp), VN(BOor, kRepeat), VN(BOor, kMirror)};
inline const Names<BProp> kProps = {VN(BrushBehavior, kPressure), VN(BrushBehavior, kTilt), VN(BrushBehavior, kOrientation), VN(BrushBehavior, kTiltXAndY)};
inline const Names<BrushBehavior::BinaryOp> kBins = {VN(BrushBehavior::BinaryOp, kProduct), VN(BrushBehavior::BinaryOp, kSum)};
inline const Names<BrushBehavior::DampingSource> kDampings = {VN(BrushBehavior::DampingSource, kDistanceInCentimeters), VN(BrushBehavior::DampingSource, kDistanceInMultiplesOfBrushSize), VN(BrushBehavior::DampingSource, kTimeInSeconds)};
inline const Names<BrushBehavior::Interpolation> kInterps = {VN(BrushBehavior::Interpolation, kLerp), VN(BrushBehavior::Interpolation, kInverseLerp)};
using EP = EasingFunction::Predefined; using ES = EasingFunction::StepPosition;
inline const Names<EP> kPredef = {VN(EP, kLinear), VN(EP, kEase), VN(EP, kEaseIn), VN(EP, kEaseOut), VN(EP, kEaseInOut), VN(EP, kStepStart), VN(EP, kStepEnd)};
inline const Names<ES> kSteps = {VN(ES, kJumpEnd), VN(ES, kJumpStart), VN(ES, kJumpBoth), VN(ES, kJumpNone)};
using TM = BrushPaint::TextureMapping; using TO = BrushPaint::TextureOrigin; using TU = BrushPaint::TextureSizeUnit; using TW = BrushPaint::TextureWrap; using TB = BrushPaint::BlendMode;
inline const Names<TM> kMaps = {VN(TM, kTiling), VN(TM, kWinding)};
inline const Names<TO> kOrigins = {VN(TO, kStrokeSpaceOrigin), VN(TO, kFirstStrokeInput), VN(TO, kLastStrokeInput)};
inline const Names<TU> kUnits = {VN(TU, kBrushSize), VN(TU, kStrokeSize), VN(TU, kStrokeCoordinates)};
inline const Names<TW> kWraps = {VN(TW, kRepeat), VN(TW, kMirror), VN(TW, kClamp)};
inline const Names<TB> kBlends = {VN(TB, kModulate), VN(TB, kDstIn), VN(TB, kDstOut), VN(TB, kSrcAtop), VN(TB, kSrcIn), VN(TB, kSrcOver), VN(TB, kDstOver), VN(TB, kSrc), VN(TB, kDst), VN(TB, kSrcOut), VN(TB, kDstAtop), VN(TB, kXor)};
#undef VN
// ------------------------------------------------------------------ how they are written
inline J JEasing(const EasingFunction& f) {
  J j;
  if (auto* p = std::get_if<EP>(&f.parameters)) return j.S("k", "predefined").S("name", NameOf(kPredef, *p));
  if (auto* b = std::get_if<EasingFunction::CubicBezier>(&f.parameters)) return j.S("k", "bezier").F("x1", b->x1).F("y1", b->y1).F("x2", b->x2).F("y2", b->y2);
  if (auto* y = std::get_if<EasingFunction::Linear>(&f.parameters)) { std::vector<std::array<float, 2>> v; for (auto& p : y->points) v.push_back({p.x, p.y}); return j.S("k", "linear").A("pts", v); }
  auto& s = std::get<EasingFunction::Steps>(f.parameters);
  return j.S("k", "steps").I("n", s.step_count).S("pos", NameOf(kSteps, s.step_position));
}
using Node = BrushBehavior::Node;
inline J JNode(const Node& n) {
  J j;
  if (auto* x = std::get_if<BrushBehavior::SourceNode>(&n)) return j.S("k", "S").S("source", NameOf(kSources, x->source)).S("oor", NameOf(kOors, x->source_out_of_range_behavior)).F("lo", x->source_value_range[0]).F("hi", x->source_value_range[1]);
  if (auto* x = std::get_if<BrushBehavior::ConstantNode>(&n)) return j.S("k", "K").F("value", x->value);
  if (auto* x = std::get_if<BrushBehavior::FallbackFilterNode>(&n)) return j.S("k", "F").S("prop", NameOf(kProps, x->is_fallback_for));
  if (auto* x = std::get_if<BrushBehavior::ToolTypeFilterNode>(&n)) { std::vector<std::string> t; auto& e = x->enabled_tool_types; if (e.unknown) t.push_back("unknown"); if (e.mouse) t.push_back("mouse"); if (e.touch) t.push_back("touch"); if (e.stylus) t.push_back("stylus"); return j.S("k", "L").A("tools", t); }
  if (auto* x = std::get_if<BrushBehavior::DampingNode>(&n)) return j.S("k", "D").S("damping", NameOf(kDampings, x->damping_source)).F("gap", x->damping_gap);
  if (auto* x = std::get_if<BrushBehavior::ResponseNode>(&n)) return j.S("k", "R").Raw("curve", JEasing(x->response_curve).Str());
  if (auto* x = std::get_if<BrushBehavior::BinaryOpNode>(&n)) return j.S("k", "B").S("bin", NameOf(kBins, x->operation));
  if (auto* x = std::get_if<BrushBehavior::InterpolationNode>(&n)) return j.S("k", "I").S("how", NameOf(kInterps, x->interpolation));
  auto& x = std::get<BrushBehavior::TargetNode>(n);
  return j.S("k", "T").S("target", NameOf(kTargets, x.target)).F("lo", x.target_modifier_range[0]).F("hi", x.target_modifier_range[1]);
}
inline std::string JNodes(const BrushBehavior& b) { std::vector<J> v; for (auto& n : b.nodes) v.push_back(JNode(n)); return J::Arr(v); }
inline std::array<float, 2> A2(Vec v) { return {v.x, v.y}; }
inline J JTip(const BrushTip& t) {
  std::string bs = "["; for (auto& b : t.behaviors) { if (bs.size() > 1) bs += ","; bs += JNodes(b); } bs += "]";
  return J().F("sx", t.scale.x).F("sy", t.scale.y).F("round", t.corner_rounding).F("slant", t.slant.ValueInRadians()).F("pinch", t.pinch).F("rot", t.rotation.ValueInRadians()).F("opac", t.opacity_multiplier)
      .F("gapd", t.particle_gap_distance_scale).F("gapt", t.particle_gap_duration.ToSeconds()).Raw("behaviors", bs);
}
inline J JKey(const BrushPaint::TextureKeyframe& k) {
  std::vector<float> s, o, r, p;
  if (k.size) s = {k.size->x, k.size->y}; if (k.offset) o = {k.offset->x, k.offset->y}; if (k.rotation) r = {k.rotation->ValueInRadians()}; if (k.opacity) p = {*k.opacity};
  return J().F("progress", k.progress).A("size", s).A("offset", o).A("rotation", r).A("opacity", p);
}
inline std::string UriType(const ink::Uri& u) { switch (u.GetAssetType()) { case ink::Uri::AssetType::kUninitialized: return "none"; case ink::Uri::AssetType::kBrushFamily: return "brush-family"; case ink::Uri::AssetType::kTexture: return "texture"; } return "?"; }
inline J JLayer(const BrushPaint::TextureLayer& y) {
  std::vector<J> ks; for (auto& k : y.keyframes) ks.push_back(JKey(k));
  return J().S("uri", UriType(y.color_texture_uri)).S("name", y.color_texture_uri.ToNormalizedString()).S("mapping", NameOf(kMaps, y.mapping)).S("origin", NameOf(kOrigins, y.origin)).S("unit", NameOf(kUnits, y.size_unit)).S("wrapx", NameOf(kWraps, y.wrap_x)).S("wrapy", NameOf(kWraps, y.wrap_y))
      .A("size", A2(y.size)).A("offset", A2(y.offset)).F("rotation", y.rotation.ValueInRadians()).A("sizejit", A2(y.size_jitter)).A("offjit", A2(y.offset_jitter)).F("rotjit", y.rotation_jitter.ValueInRadians()).F("opacity", y.opacity)
      .A("keyframes", ks).S("blend", NameOf(kBlends, y.blend_mode));
}
inline std::string JPaint(const BrushPaint& p) { std::vector<J> v; for (auto& y : p.texture_layers) v.push_back(JLayer(y)); return J::Arr(v); }
inline J JCoat(const BrushCoat& c) { std::vector<J> v; for (auto& t : c.tips) v.push_back(JTip(t)); return J().A("tips", v).Raw("paint", JPaint(c.paint)); }
// ------------------------------------------------------------------ random ones
class Parts {
 public:
  explicit Parts(Rng& g) : g_(g) {}
  // With this probability (in 1/1000) a number or enumerator is taken from the wild rather than from where it is valid.
  int wild = 0;
  bool Wild() { return wild && g_.Chance(wild, 1000); }
  float Any() {
    static const float inf = std::numeric_limits<float>::infinity();
    static const std::vector<float> vs = {0, -0.0f, 1e-45f, -1e-45f, 1e-40f, -1e-38f, 0.5f, -0.5f, 1, std::nextafter(1.0f, 2.0f), std::nextafter(1.0f, 0.0f), 2, std::nextafter(2.0f, 3.0f), std::nextafter(2.0f, 0.0f), -1, 3, -2, 10,
      1.57079637f, std::nextafter(1.57079637f, 2.0f), -1.57079637f, -std::nextafter(1.57079637f, 2.0f), 6.2831855f, 3.4028235e38f, -3.4028235e38f, inf, -inf, std::nanf("")};
    return g_.Chance(1, 8) ? g_.Bits() : g_.Pick(vs);
  }
  float Finite() { float f; do f = Any(); while (!std::isfinite(f)); return f; }
  float In(float lo, float hi) { if (Wild()) return Any(); int k = g_.Int(0, 5); return k == 0 ? lo : k == 1 ? hi : k == 2 ? std::nextafter(lo, hi) : lo + (hi - lo) * g_.Unit(); }
  float NonNeg() { return Wild() ? Any() : std::abs(Finite()); }
  float Pos() { if (Wild()) return Any(); float f; do f = std::abs(Finite()); while (f == 0); return f; }
  float Fin() { return Wild() ? Any() : Finite(); }
  Vec In2(float lo, float hi) { float x = In(lo, hi); return {x, In(lo, hi)}; }
  template <typename E> E Enum(const Names<E>& ns) { if (!Wild()) return g_.Pick(ns).first; static const int vs[] = {-128, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 11, 12, 13, 14, 15, 16, 36, 37, 38, 100, 127}; return static_cast<E>(g_.Pick(vs)); }
  std::array<float, 2> Range() { if (Wild()) { float x = Any(); return {x, g_.Chance(1, 3) ? x : Any()}; } float a = Finite(), b; do b = Finite(); while (a == b); return {a, b}; }
  EasingFunction Easing() {
    switch (g_.Int(0, 3)) {
      case 0: return {Enum(kPredef)};
      case 1: { float x1 = In(0, 1), y1 = Fin(), x2 = In(0, 1); return {EasingFunction::CubicBezier{x1, y1, x2, Fin()}}; }
      case 2: { EasingFunction::Linear y; int n = g_.Int(0, 4); for (int i = 0; i < n; ++i) { float x = In(0, 1); y.points.push_back({x, Fin()}); } if (!Wild()) std::stable_sort(y.points.begin(), y.points.end(), [](auto& a, auto& b) { return a.x < b.x; }); return {y}; }
      default: { ES p = Enum(kSteps); int n = Wild() ? g_.Int(-2, 3) : g_.Chance(1, 8) ? 2147483647 : g_.Int(p == ES::kJumpNone ? 2 : 1, 6); return {EasingFunction::Steps{n, p}}; }
    }
  }
  Node OfKind(char k) {
    switch (k) {
      case 'S': { BrushBehavior::SourceNode n; n.source = Enum(kSources); n.source_out_of_range_behavior = Enum(kOors); if (!Wild() && (n.source == BSrc::kTimeSinceInputInSeconds || n.source == BSrc::kTimeSinceInputInMillis)) n.source_out_of_range_behavior = BOor::kClamp; n.source_value_range = Range(); return n; }
      case 'K': return BrushBehavior::ConstantNode{Fin()};
      case 'F': return BrushBehavior::FallbackFilterNode{Enum(kProps)};
      case 'L': { int b = Wild() ? 0 : g_.Int(1, 15); return BrushBehavior::ToolTypeFilterNode{{.unknown = bool(b & 1), .mouse = bool(b & 2), .touch = bool(b & 4), .stylus = bool(b & 8)}}; }
      case 'D': { auto s = Enum(kDampings); return BrushBehavior::DampingNode{s, NonNeg()}; }
      case 'R': return BrushBehavior::ResponseNode{Easing()};
      case 'B': return BrushBehavior::BinaryOpNode{Enum(kBins)};
      case 'I': return BrushBehavior::InterpolationNode{Enum(kInterps)};
      default: { auto t = Enum(kTargets); return BrushBehavior::TargetNode{t, Range()}; }
    }
  }
  Node AnyNode() { return OfKind("SKFLDRBIT"[g_.Int(0, 8)]); }
  BrushBehavior Behavior() {
    // a complete forest: nested trees, with now and then one node too many or too few
    BrushBehavior b; int depth = 0;
    for (int i = g_.Int(1, 7); i > 0; --i) {
      std::string can = "SK"; if (depth >= 1) can += "FLDRT"; if (depth >= 2) can += "B"; if (depth >= 3) can += "I";
      char k = can[size_t(g_.Int(0, int(can.size()) - 1))];
      b.nodes.push_back(OfKind(k)); depth += (k == 'S' || k == 'K') ? 1 : k == 'T' ? -1 : k == 'B' ? -1 : k == 'I' ? -2 : 0;
    }
    while (depth-- > 0) b.nodes.push_back(OfKind('T'));
    if (Wild() && !b.nodes.empty()) { size_t i = size_t(g_.Int(0, int(b.nodes.size()) - 1)); if (g_.Chance(1, 2)) b.nodes.erase(b.nodes.begin() + long(i)); else b.nodes.insert(b.nodes.begin() + long(i), AnyNode()); }
    return b;
  }
  BrushTip Tip(int behaviors = 2) {
    BrushTip t;
    t.scale.x = NonNeg(); t.scale.y = NonNeg(); if (!Wild() && t.scale.x == 0 && t.scale.y == 0) t.scale.y = 1; if (g_.Chance(1, 8)) (g_.Chance(1, 2) ? t.scale.x : t.scale.y) = 0; if (!wild && t.scale.x == 0 && t.scale.y == 0) t.scale.x = 1;
    t.corner_rounding = In(0, 1); t.slant = Angle::Radians(In(-1.57079637f, 1.57079637f)); t.pinch = In(0, 1); t.rotation = Angle::Radians(Fin()); t.opacity_multiplier = In(0, 2);
    t.particle_gap_distance_scale = NonNeg(); t.particle_gap_duration = ink::Duration32::Seconds(NonNeg());
    for (int i = g_.Int(0, behaviors); i > 0; --i) t.behaviors.push_back(Behavior());
    return t;
  }
  BrushPaint::TextureKeyframe Key() {
    BrushPaint::TextureKeyframe k{In(0, 1), {}, {}, {}, {}};
    if (g_.Chance(1, 2)) { float x = Pos(); k.size = Vec{x, Pos()}; } if (g_.Chance(1, 2)) k.offset = In2(0, 1); if (g_.Chance(1, 2)) k.rotation = Angle::Radians(Fin()); if (g_.Chance(1, 2)) k.opacity = In(0, 1);
    return k;
  }
  BrushPaint::TextureLayer Layer() {
    BrushPaint::TextureLayer y;
    y.color_texture_uri = *ink::Uri::Parse(Wild() ? (g_.Chance(1, 2) ? "" : "/brush-family:a") : g_.Chance(1, 2) ? "/texture:a" : "//b/texture:c:2");
    y.mapping = Enum(kMaps); y.origin = Enum(kOrigins); y.size_unit = Enum(kUnits); y.wrap_x = Enum(kWraps); y.wrap_y = Enum(kWraps); y.blend_mode = Enum(kBlends);
    y.size.x = Pos(); y.size.y = Pos(); y.offset.x = Fin(); y.offset.y = Fin(); y.rotation = Angle::Radians(Fin());
    y.size_jitter.x = In(0, std::abs(y.size.x)); y.size_jitter.y = In(0, std::abs(y.size.y)); y.offset_jitter = In2(0, 1); y.rotation_jitter = Angle::Radians(Fin()); y.opacity = In(0, 1);
    if (Wild()) y.size_jitter.x = std::nextafter(y.size.x, 3.4e38f); if (Wild()) y.size_jitter.y = std::nextafter(y.size.y, 3.4e38f);
    for (int i = g_.Int(0, 2); i > 0; --i) y.keyframes.push_back(Key());
    return y;
  }
  BrushPaint Paint() { BrushPaint p; TM m = g_.Pick(kMaps).first; for (int i = g_.Int(0, 3); i > 0; --i) { p.texture_layers.push_back(Layer()); if (!Wild() && NameOf(kMaps, p.texture_layers.back().mapping) != "?") p.texture_layers.back().mapping = m; } return p; }
  BrushCoat Coat(int behaviors = 2) { BrushCoat c; int n = Wild() ? 0 : Wild() ? 2 : 1; for (int i = 0; i < n; ++i) c.tips.push_back(Tip(behaviors)); c.paint = Paint(); return c; }
 private:
  Rng& g_;
};
}  // namespace verif
#endif
