// Brushes used by the stroke drivers. Number 1..kBrushCount.
#ifndef VERIF_DRIVERS_BRUSHES_H_
#define VERIF_DRIVERS_BRUSHES_H_
#include <vector>
#include "common.h"
#include "ink/brush/brush.h"
#include "ink/brush/brush_behavior.h"
#include "ink/brush/brush_coat.h"
#include "ink/brush/brush_family.h"
#include "ink/brush/brush_paint.h"
#include "ink/brush/brush_tip.h"
#include "ink/types/uri.h"
namespace verif {
using BB = ink::BrushBehavior;
using Src = BB::Source; using Tgt = BB::Target; using Oor = BB::OutOfRange;
constexpr int kBrushCount = 18;
inline BB Simple(Src s, float lo, float hi, Tgt t, float a, float b, Oor o = Oor::kClamp) { return BB{{BB::SourceNode{s, o, {lo, hi}}, BB::TargetNode{t, {a, b}}}}; }
inline BB Damped(Src s, float lo, float hi, BB::DampingSource d, float gap, Tgt t, float a, float b) { return BB{{BB::SourceNode{s, Oor::kClamp, {lo, hi}}, BB::DampingNode{d, gap}, BB::TargetNode{t, {a, b}}}}; }
struct BrushInfo {
  ink::Brush brush;
  std::vector<float> time_bounds_ms;   // upper bounds of the ranges of its time-since-input sources
};
inline ink::BrushPaint WindingPaint() {
  ink::BrushPaint p;
  p.texture_layers.push_back({.color_texture_uri = *ink::Uri::Parse("ink://ink/texture:t"), .mapping = ink::BrushPaint::TextureMapping::kWinding});
  return p;
}
inline BrushInfo MakeBrush(int k) {
  std::vector<ink::BrushCoat> coats(1); coats[0].tips.resize(1);
  ink::BrushTip& tip = coats[0].tips[0];
  ink::BrushFamily::InputModel model = ink::BrushFamily::SpringModelV1{};
  float size = 10, eps = 0.5f; BrushInfo info;
  auto& bs = tip.behaviors;
  switch (k) {
    case 1: break;
    case 2: tip.scale = {1, 0.5f}; tip.rotation = ink::Angle::Radians(0.7f); tip.corner_rounding = 0.3f; model = ink::BrushFamily::SpringModelV2{}; break;
    case 3: tip.corner_rounding = 0; tip.pinch = 0.4f; tip.slant = ink::Angle::Radians(0.3f); tip.scale = {0.6f, 1.4f}; break;
    case 4: tip.particle_gap_distance_scale = 1; break;
    case 5: tip.particle_gap_duration = ink::Duration32::Seconds(0.03f); tip.corner_rounding = 0.5f; break;
    case 6: bs = {Simple(Src::kNormalizedPressure, 0, 1, Tgt::kSizeMultiplier, 0.3f, 1.5f), Simple(Src::kTiltInRadians, 0, 1.5f, Tgt::kOpacityMultiplier, 0.2f, 1)}; break;
    case 7: tip.scale = {1, 0.3f}; bs = {Simple(Src::kDirectionInRadians, 0, 6.2831855f, Tgt::kRotationOffsetInRadians, 0, 6.2831855f)}; break;
    case 8: bs = {Simple(Src::kDistanceRemainingInMultiplesOfBrushSize, 0, 3, Tgt::kSizeMultiplier, 0.2f, 1)}; break;
    case 9: bs = {Simple(Src::kTimeSinceInputInSeconds, 0, 0.25f, Tgt::kOpacityMultiplier, 1, 0.25f), Simple(Src::kTimeSinceInputInMillis, 0, 400, Tgt::kSizeMultiplier, 1, 0.5f)}; info.time_bounds_ms = {250, 400}; break;
    case 10: bs = {Damped(Src::kNormalizedPressure, 0, 1, BB::DampingSource::kTimeInSeconds, 0.05f, Tgt::kWidthMultiplier, 0.5f, 1.5f),
                   Damped(Src::kDistanceTraveledInMultiplesOfBrushSize, 0, 2, BB::DampingSource::kDistanceInMultiplesOfBrushSize, 1, Tgt::kHeightMultiplier, 0.5f, 1.5f)}; break;
    case 11: bs = {Simple(Src::kPredictedDistanceTraveledInMultiplesOfBrushSize, 0, 2, Tgt::kOpacityMultiplier, 1, 0), Simple(Src::kPredictedTimeElapsedInSeconds, 0, 0.1f, Tgt::kSizeMultiplier, 1, 0.5f)}; break;
    case 12: bs = {Simple(Src::kSpeedInMultiplesOfBrushSizePerSecond, 0, 40, Tgt::kHeightMultiplier, 1, 0.5f), Simple(Src::kAccelerationXInMultiplesOfBrushSizePerSecondSquared, -100, 100, Tgt::kPositionOffsetXInMultiplesOfBrushSize, -0.2f, 0.2f),
                   Simple(Src::kTimeOfInputInMillis, 0, 200, Tgt::kCornerRoundingOffset, 0, -0.5f, Oor::kMirror)}; model = ink::BrushFamily::SpringModelV2{}; break;
    case 13: { coats.resize(2); coats[1].tips.resize(1); coats[1].tips[0].scale = {0.5f, 0.5f}; coats[1].tips[0].particle_gap_distance_scale = 0.7f; coats[1].tips[0].behaviors = {Simple(Src::kNormalizedDirectionX, -1, 1, Tgt::kPositionOffsetLateralInMultiplesOfBrushSize, -0.3f, 0.3f)}; break; }
    case 14: coats[0].paint = WindingPaint(); tip.scale = {1, 0.7f}; break;
    case 15: coats[0].paint = WindingPaint(); tip.particle_gap_distance_scale = 1.5f; break;
    case 16: bs = {BB{{BB::SourceNode{Src::kNormalizedPressure, Oor::kMirror, {0, 0.4f}}, BB::ToolTypeFilterNode{{.unknown = false, .mouse = true, .touch = true, .stylus = true}}, BB::SourceNode{Src::kDistanceTraveledInMultiplesOfBrushSize, Oor::kRepeat, {0, 2}},
                      BB::ResponseNode{{ink::EasingFunction::Predefined::kEaseInOut}}, BB::BinaryOpNode{BB::BinaryOp::kProduct}, BB::TargetNode{Tgt::kHueOffsetInRadians, {0, 3}}}},
                   BB{{BB::SourceNode{Src::kTimeOfInputInSeconds, Oor::kRepeat, {0, 0.1f}}, BB::FallbackFilterNode{BB::kPressure}, BB::TargetNode{Tgt::kSizeMultiplier, {0.5f, 1}}}},
                   Simple(Src::kOrientationInRadians, 0, 6.2831855f, Tgt::kLuminosity, -0.5f, 0.5f)}; break;
    case 17: size = 1; eps = 0.01f; bs = {Simple(Src::kTimeSinceInputInSeconds, 0.4f, 0.1f, Tgt::kRotationOffsetInRadians, 0, 1)}; tip.scale = {1, 0.2f}; info.time_bounds_ms = {400}; break;
    case 18: size = 100; eps = 4; coats.resize(3); coats[1] = coats[0]; coats[2] = coats[0]; coats[1].tips[0].scale = {0.3f, 0.3f}; coats[2].tips[0].behaviors = {Simple(Src::kDistanceRemainingInMultiplesOfBrushSize, 0, 1, Tgt::kOpacityMultiplier, 0, 1, Oor::kRepeat)}; break;
    default: std::exit(3);
  }
  auto family = ink::BrushFamily::Create(coats, std::nullopt, model);
  if (!family.ok()) { std::fprintf(stderr, "brush %d: %s\n", k, std::string(family.status().message()).c_str()); std::exit(3); }
  auto brush = ink::Brush::Create(*family, ink::Color::Blue(), size, eps);
  if (!brush.ok()) std::exit(3);
  info.brush = *brush;
  return info;
}
}  // namespace verif
#endif
