// C10: behavior nodes, tip states and the tip modeler.
#include <set>
#include "stroke_values.h"
#include "ink/strokes/internal/brush_tip_modeler.h"
#include "ink/strokes/internal/brush_tip_modeler_helpers.h"
#include "ink/strokes/internal/easing_implementation.h"
#include "ink/strokes/internal/stroke_input_modeler.h"
using namespace verif;
using namespace ink::strokes_internal;
using ink::Angle; using ink::BrushTip; using ink::Duration32; using ink::EasingFunction; using ink::Point; using ink::Vec;
constexpr double kPi = 3.14159265358979323846;
constexpr int kNull = 2147483647, kWild = 2147483646, kBad = 2147483645;
static int Fx(double x, double unit = 4096, double lim = 120) { return std::isnan(x) ? kNull : std::isinf(x) ? kBad : std::fabs(x) >= lim ? kWild : int(std::lround(x * unit)); }
static std::vector<int> FxV(const std::vector<float>& v) { std::vector<int> r; for (float f : v) r.push_back(Fx(f)); return r; }
static const float kNullF = std::nanf("");

// ---- sources: what they mean
struct SrcInfo { Src s; const char* cls; };
static double Raw(Src s, const ModeledStrokeInput& in, const std::optional<double>& dir, double size, const StrokeInputModeler::State& st) {
  double unit = st.stroke_unit_length ? st.stroke_unit_length->ToCentimeters() : 0;
  double vx = in.velocity.x, vy = in.velocity.y, ax = in.acceleration.x, ay = in.acceleration.y, v = std::hypot(vx, vy), ux = v > 0 ? vx / v : 0, uy = v > 0 ? vy / v : 0;
  if (v == 0 && (s == Src::kAccelerationForwardInMultiplesOfBrushSizePerSecondSquared || s == Src::kAccelerationLateralInMultiplesOfBrushSizePerSecondSquared || s >= Src::kInputAccelerationForwardInCentimetersPerSecondSquared)) return 1e9;  // no direction of travel
  double t = in.elapsed_time.ToSeconds(), d = in.traveled_distance, tilt = in.tilt.ValueInRadians(), ori = in.orientation.ValueInRadians();
  double pd = std::max(0.0, d - st.total_real_distance), pt = std::max(0.0, t - st.total_real_elapsed_time.ToSeconds()), since = st.complete_elapsed_time.ToSeconds() - t;
  auto zero = [](double a) { while (a > kPi + 1e-7) a -= 2 * kPi; while (a <= -kPi) a += 2 * kPi; return a; };
  double dr = dir ? *dir : 0; auto pos = [](double a) { while (a < 0) a += 2 * kPi; return a; };
  switch (s) {
    case Src::kNormalizedPressure: return in.pressure;
    case Src::kTiltInRadians: return tilt;
    case Src::kTiltXInRadians: return std::atan(std::cos(ori) * std::tan(tilt));
    case Src::kTiltYInRadians: return std::atan(std::sin(ori) * std::tan(tilt));
    case Src::kOrientationInRadians: return ori;
    case Src::kOrientationAboutZeroInRadians: return zero(ori);
    case Src::kSpeedInMultiplesOfBrushSizePerSecond: return v / size;
    case Src::kVelocityXInMultiplesOfBrushSizePerSecond: return vx / size;
    case Src::kVelocityYInMultiplesOfBrushSizePerSecond: return vy / size;
    case Src::kDirectionInRadians: return pos(dr);
    case Src::kDirectionAboutZeroInRadians: return zero(dr);
    case Src::kNormalizedDirectionX: return std::cos(dr);
    case Src::kNormalizedDirectionY: return std::sin(dr);
    case Src::kDistanceTraveledInMultiplesOfBrushSize: return d / size;
    case Src::kTimeOfInputInSeconds: return t;
    case Src::kTimeOfInputInMillis: return t * 1000;
    case Src::kPredictedDistanceTraveledInMultiplesOfBrushSize: return pd / size;
    case Src::kPredictedTimeElapsedInSeconds: return pt;
    case Src::kPredictedTimeElapsedInMillis: return pt * 1000;
    case Src::kDistanceRemainingInMultiplesOfBrushSize: return (st.complete_traveled_distance - d) / size;
    case Src::kTimeSinceInputInSeconds: return since;
    case Src::kTimeSinceInputInMillis: return since * 1000;
    case Src::kAccelerationInMultiplesOfBrushSizePerSecondSquared: return std::hypot(ax, ay) / size;
    case Src::kAccelerationXInMultiplesOfBrushSizePerSecondSquared: return ax / size;
    case Src::kAccelerationYInMultiplesOfBrushSizePerSecondSquared: return ay / size;
    case Src::kAccelerationForwardInMultiplesOfBrushSizePerSecondSquared: return (ax * ux + ay * uy) / size;
    case Src::kAccelerationLateralInMultiplesOfBrushSizePerSecondSquared: return (-ax * uy + ay * ux) / size;
    case Src::kInputSpeedInCentimetersPerSecond: return v * unit;
    case Src::kInputVelocityXInCentimetersPerSecond: return vx * unit;
    case Src::kInputVelocityYInCentimetersPerSecond: return vy * unit;
    case Src::kInputDistanceTraveledInCentimeters: return d * unit;
    case Src::kPredictedInputDistanceTraveledInCentimeters: return pd * unit;
    case Src::kInputAccelerationInCentimetersPerSecondSquared: return std::hypot(ax, ay) * unit;
    case Src::kInputAccelerationXInCentimetersPerSecondSquared: return ax * unit;
    case Src::kInputAccelerationYInCentimetersPerSecondSquared: return ay * unit;
    case Src::kInputAccelerationForwardInCentimetersPerSecondSquared: return (ax * ux + ay * uy) * unit;
    case Src::kInputAccelerationLateralInCentimetersPerSecondSquared: return (-ax * uy + ay * ux) * unit;
  }
  std::exit(3);
}
static const Src kSources[] = {Src::kNormalizedPressure, Src::kTiltInRadians, Src::kTiltXInRadians, Src::kTiltYInRadians, Src::kOrientationInRadians, Src::kOrientationAboutZeroInRadians,
  Src::kSpeedInMultiplesOfBrushSizePerSecond, Src::kVelocityXInMultiplesOfBrushSizePerSecond, Src::kVelocityYInMultiplesOfBrushSizePerSecond, Src::kDirectionInRadians, Src::kDirectionAboutZeroInRadians,
  Src::kNormalizedDirectionX, Src::kNormalizedDirectionY, Src::kDistanceTraveledInMultiplesOfBrushSize, Src::kTimeOfInputInSeconds, Src::kTimeOfInputInMillis, Src::kPredictedDistanceTraveledInMultiplesOfBrushSize,
  Src::kPredictedTimeElapsedInSeconds, Src::kPredictedTimeElapsedInMillis, Src::kDistanceRemainingInMultiplesOfBrushSize, Src::kTimeSinceInputInSeconds, Src::kTimeSinceInputInMillis,
  Src::kAccelerationInMultiplesOfBrushSizePerSecondSquared, Src::kAccelerationXInMultiplesOfBrushSizePerSecondSquared, Src::kAccelerationYInMultiplesOfBrushSizePerSecondSquared,
  Src::kAccelerationForwardInMultiplesOfBrushSizePerSecondSquared, Src::kAccelerationLateralInMultiplesOfBrushSizePerSecondSquared, Src::kInputSpeedInCentimetersPerSecond, Src::kInputVelocityXInCentimetersPerSecond,
  Src::kInputVelocityYInCentimetersPerSecond, Src::kInputDistanceTraveledInCentimeters, Src::kPredictedInputDistanceTraveledInCentimeters, Src::kInputAccelerationInCentimetersPerSecondSquared,
  Src::kInputAccelerationXInCentimetersPerSecondSquared, Src::kInputAccelerationYInCentimetersPerSecondSquared, Src::kInputAccelerationForwardInCentimetersPerSecondSquared, Src::kInputAccelerationLateralInCentimetersPerSecondSquared};
static bool Since(Src s) { return s == Src::kTimeSinceInputInSeconds || s == Src::kTimeSinceInputInMillis; }
static const char* Cls(Src s) {
  switch (s) {
    case Src::kNormalizedPressure: return "pressure";
    case Src::kTiltInRadians: return "tilt";
    case Src::kTiltXInRadians: case Src::kTiltYInRadians: return "tiltxy";
    case Src::kOrientationInRadians: case Src::kOrientationAboutZeroInRadians: return "orientation";
    case Src::kDirectionInRadians: case Src::kDirectionAboutZeroInRadians: case Src::kNormalizedDirectionX: case Src::kNormalizedDirectionY: return "direction";
    default: return s >= Src::kInputSpeedInCentimetersPerSecond ? "centimeters" : "always";
  }
}
static const Tgt kTargets[] = {Tgt::kWidthMultiplier, Tgt::kHeightMultiplier, Tgt::kSizeMultiplier, Tgt::kSlantOffsetInRadians, Tgt::kPinchOffset, Tgt::kRotationOffsetInRadians, Tgt::kCornerRoundingOffset,
  Tgt::kPositionOffsetXInMultiplesOfBrushSize, Tgt::kPositionOffsetYInMultiplesOfBrushSize, Tgt::kPositionOffsetForwardInMultiplesOfBrushSize, Tgt::kPositionOffsetLateralInMultiplesOfBrushSize, Tgt::kHueOffsetInRadians,
  Tgt::kSaturationMultiplier, Tgt::kLuminosity, Tgt::kOpacityMultiplier};
static const char* kTargetNames[] = {"width", "height", "size", "slant", "pinch", "rotation", "round", "x", "y", "forward", "lateral", "hue", "saturation", "luminosity", "opacity"};
static const float kFirst[] = {1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1};

static EasingFunction RandomEasing(Rng& g) {
  switch (g.Int(0, 6)) {
    case 0: return {EasingFunction::Predefined::kLinear};
    case 1: return {EasingFunction::Predefined::kEaseInOut};
    case 2: return {EasingFunction::Predefined::kStepStart};
    case 3: return {EasingFunction::CubicBezier{g.Unit(), 2 * g.Unit() - 0.5f, g.Unit(), g.Unit()}};
    case 4: { EasingFunction::Linear l; float x = 0; for (int i = g.Int(0, 4); i > 0; --i) { x = std::min(1.f, x + 0.4f * g.Unit()); l.points.push_back({x, 2 * g.Unit() - 0.5f}); } return {l}; }
    case 5: return {EasingFunction::Steps{g.Int(2, 6), EasingFunction::StepPosition(g.Int(0, 3))}};
    default: return {EasingFunction::Predefined::kEase};
  }
}
static const float kRanges[][2] = {{0, 1}, {0.25f, 0.75f}, {1, 0}, {-1, 1}, {0, 6.2831855f}, {0, 20}, {3, -3}, {0.5f, 2}, {0, 0.25f}, {2, 1}, {-1.5707964f, 1.5707964f}, {100, 500}};
static BB::Node MakeNode(char k, Rng& g, bool tame) {
  switch (k) {
    case 'S': { Src s = g.Pick(kSources); auto& r = g.Pick(kRanges); float a = r[0], b = r[1]; if (!tame && g.Chance(1, 12)) { a = -3e38f; b = 3e38f; } return BB::SourceNode{s, Since(s) ? Oor::kClamp : Oor(g.Int(0, 2)), {a, b}}; }
    case 'K': { float v = !tame && g.Chance(1, 5) ? (g.Chance(1, 2) ? 3e38f : -2e38f) : 0.125f * float(g.Int(-16, 16)); return BB::ConstantNode{v}; }
    case 'F': return BB::FallbackFilterNode{BB::OptionalInputProperty(g.Int(0, 3))};
    case 'L': { int m = g.Int(1, 15); return BB::ToolTypeFilterNode{{bool(m & 1), bool(m & 2), bool(m & 4), bool(m & 8)}}; }
    case 'D': { static const float gaps[] = {0, 0.1f, 1, 0.02f, 5}; return BB::DampingNode{BB::DampingSource(g.Int(0, 2)), g.Pick(gaps)}; }
    case 'R': return BB::ResponseNode{RandomEasing(g)};
    case 'B': return BB::BinaryOpNode{BB::BinaryOp(g.Int(0, 1))};
    case 'I': return BB::InterpolationNode{BB::Interpolation(g.Int(0, 1))};
    default: { static const float rr[][2] = {{0, 1}, {0.5f, 1.5f}, {1, 0}, {-0.5f, 0.25f}, {2, 3}}; auto& r = g.Pick(rr); float a = r[0], b = r[1]; if (!tame && g.Chance(1, 10)) { a = -3e38f; b = 1e38f; } return BB::TargetNode{g.Pick(kTargets), {a, b}}; }
  }
}
static ModeledStrokeInput RandomInput(Rng& g, int fmt, float t, float d) {
  ModeledStrokeInput in; in.position = {0.25f * float(g.Int(-20, 20)), 0.25f * float(g.Int(-20, 20))};
  in.velocity = g.Chance(1, 6) ? Vec{0, 0} : Vec{float(g.Int(-40, 40)), float(g.Int(-40, 40))}; in.acceleration = {float(g.Int(-90, 90)), float(g.Int(-90, 90))};
  in.elapsed_time = Duration32::Seconds(t); in.traveled_distance = d;
  if (fmt & 1) in.pressure = g.Chance(1, 8) ? float(g.Int(0, 1)) : g.Unit();
  if (fmt & 2) in.tilt = g.Chance(1, 4) ? Angle() : g.Chance(1, 6) ? ink::kQuarterTurn : Angle::Radians(1.5f * g.Unit());
  if (fmt & 4) in.orientation = g.Chance(1, 6) ? Angle() : Angle::Radians(6.28f * g.Unit());
  return in;
}
// The state of a run of behaviors, kept as the tip modeler keeps it.
struct Machine {
  std::vector<BB::Node> nodes; std::vector<BehaviorNodeImplementation> impl; std::vector<float> damped, mods; std::vector<Tgt> targets;
  explicit Machine(const std::vector<BB::Node>& ns) : nodes(ns) {
    for (auto& n : nodes) std::visit([&](auto& x) {
      using N = std::decay_t<decltype(x)>;
      if constexpr (std::is_same_v<N, BB::DampingNode>) { impl.push_back(DampingNodeImplementation{damped.size(), x.damping_source, x.damping_gap}); damped.push_back(kNullF); }
      else if constexpr (std::is_same_v<N, BB::ResponseNode>) impl.push_back(EasingImplementation(x.response_curve));
      else if constexpr (std::is_same_v<N, BB::TargetNode>) { impl.push_back(TargetNodeImplementation{targets.size(), x.target_modifier_range}); targets.push_back(x.target); mods.push_back(kFirst[int(x.target)]); }
      else impl.push_back(x);
    }, n);
  }
  void Run(Trace* t, const StrokeInputModeler::State& st, const ModeledStrokeInput& in, std::optional<Angle> dir, std::optional<double> dirv, float size, std::optional<InputMetrics> prev) {
    std::vector<float> stack; if (t) stack.assign(2, 0.5f);     // something below, which must survive
    BehaviorNodeContext c{st, in, dir, size, prev, stack, absl::MakeSpan(damped), absl::MakeSpan(mods)};
    for (size_t i = 0; i < impl.size(); ++i) {
      if (!t) { ProcessBehaviorNode(impl[i], c); continue; }
      auto s0 = stack, d0 = damped, m0 = mods;
      ProcessBehaviorNode(impl[i], c);
      std::string kind(1, "SKFLDRBIT"[nodes[i].index()]); size_t nin = kind == "S" || kind == "K" ? 0 : kind == "B" ? 2 : kind == "I" ? 3 : 1, nout = kind == "T" ? 0 : 1;
      J j("node"); j.S("kind", kind);
      bool rest = s0.size() >= nin && stack.size() == s0.size() - nin + nout && std::equal(s0.begin(), s0.end() - long(nin), stack.begin(), [](float a, float b) { return std::memcmp(&a, &b, 4) == 0; });
      std::vector<float> a(s0.end() - long(nin), s0.end()), o; if (rest) o.assign(stack.end() - long(nout), stack.end());
      j.A("in", FxV(a)).A("out", FxV(o)).B("rest", rest).B("damps", FxV(d0) == FxV(damped)).B("mods", FxV(m0) == FxV(mods));
      std::visit([&](auto& x) {
        using N = std::decay_t<decltype(x)>;
        j.I("pressure", Enc(in.pressure)).I("tilt", Enc(in.tilt.ValueInRadians())).I("orientation", Enc(in.orientation.ValueInRadians())).B("units", st.stroke_unit_length.has_value());
        if constexpr (std::is_same_v<N, BB::SourceNode>) {
          j.S("source", Cls(x.source)).I("name", int(x.source)).B("flat", in.tilt == ink::kQuarterTurn).B("travel", dir.has_value()).I("raw", Fx(Raw(x.source, in, dirv, size, st), 4096, 60)).I("lo", Fx(x.source_value_range[0])).I("hi", Fx(x.source_value_range[1]))
           .S("oor", x.source_out_of_range_behavior == Oor::kClamp ? "clamp" : x.source_out_of_range_behavior == Oor::kRepeat ? "repeat" : "mirror");
        } else if constexpr (std::is_same_v<N, BB::ConstantNode>) j.I("value", Fx(x.value));
        else if constexpr (std::is_same_v<N, BB::FallbackFilterNode>) { const char* n[] = {"pressure", "tilt", "orientation", "tiltxy"}; j.S("prop", n[int(x.is_fallback_for)]); }
        else if constexpr (std::is_same_v<N, BB::ToolTypeFilterNode>) { std::vector<int> v; auto& e = x.enabled_tool_types; if (e.unknown) v.push_back(int(ink::StrokeInput::ToolType::kUnknown)); if (e.mouse) v.push_back(int(ink::StrokeInput::ToolType::kMouse)); if (e.touch) v.push_back(int(ink::StrokeInput::ToolType::kTouch)); if (e.stylus) v.push_back(int(ink::StrokeInput::ToolType::kStylus)); j.I("tool", int(st.tool_type)).A("tools", v); }
        else if constexpr (std::is_same_v<N, BB::DampingNode>) {
          size_t k = std::get<DampingNodeImplementation>(impl[i]).damping_index; auto oth0 = d0, oth1 = damped; oth0.erase(oth0.begin() + long(k)); oth1.erase(oth1.begin() + long(k));
          double moved = 0, gap = x.damping_gap;
          if (prev) { if (x.damping_source == BB::DampingSource::kTimeInSeconds) moved = in.elapsed_time.ToSeconds() - prev->elapsed_time.ToSeconds(); else { moved = in.traveled_distance - prev->traveled_distance; if (x.damping_source == BB::DampingSource::kDistanceInCentimeters) { if (st.stroke_unit_length) moved *= st.stroke_unit_length->ToCentimeters(); } else gap *= size; } }
          j.I("prev", Fx(d0[k])).I("kept", Fx(damped[k])).B("gap0", x.damping_gap == 0).S("by", x.damping_source == BB::DampingSource::kDistanceInCentimeters ? "cm" : "other").B("moved", moved > 0).I("weight", Fx(gap > 0 ? std::exp(-moved / gap) : 0));
          if (FxV(oth0) != FxV(oth1)) j.B("others", false);
        } else if constexpr (std::is_same_v<N, BB::ResponseNode>) j.I("curve", a.empty() ? 0 : Fx(std::get<EasingImplementation>(impl[i]).GetY(a[0])));
        else if constexpr (std::is_same_v<N, BB::BinaryOpNode>) j.S("bin", x.operation == BB::BinaryOp::kSum ? "sum" : "product");
        else if constexpr (std::is_same_v<N, BB::InterpolationNode>) j.S("how", x.interpolation == BB::Interpolation::kLerp ? "lerp" : "inverse").B("same", a.size() == 3 && a[1] == a[2]);
        else if constexpr (std::is_same_v<N, BB::TargetNode>) { size_t k = std::get<TargetNodeImplementation>(impl[i]).target_index; j.I("lo", Fx(x.target_modifier_range[0])).I("hi", Fx(x.target_modifier_range[1])).I("mod0", Fx(m0[k])).I("mod1", Fx(mods[k])); }
      }, nodes[i]);
      (*t)(j);
    }
    if (t && stack.size() != 2) { (*t)(J("leftover")); }
  }
};
static std::vector<BB::Node> Program(const std::vector<std::vector<std::string>>& b, Rng& g, bool tame) {
  std::vector<BB::Node> v; for (auto& o : b) { char k = o[0][0]; if (k == 'F' && g.Chance(1, 2)) k = 'L'; if (k == 'S' && g.Chance(1, 4)) k = 'K'; v.push_back(MakeNode(k, g, tame)); } return v;
}
static StrokeInputModeler::State RandomState(Rng& g) {
  StrokeInputModeler::State st; st.tool_type = ink::StrokeInput::ToolType(g.Int(0, 3)); if (g.Chance(1, 2)) st.stroke_unit_length = ink::PhysicalDistance::Centimeters(0.05f * float(g.Int(1, 5)));
  st.complete_elapsed_time = Duration32::Seconds(2); st.complete_traveled_distance = 100; st.total_real_elapsed_time = Duration32::Seconds(0.5f * g.Unit()); st.total_real_distance = 20 * g.Unit(); return st;
}
static std::vector<int> TipFx(const BrushTipState& s) {
  return {Fx(s.width, 4096, 1e5), Fx(s.height, 4096, 1e5), Fx(s.position.x, 4096, 1e5), Fx(s.position.y, 4096, 1e5), Fx(s.percent_radius), Fx(s.rotation.ValueInRadians()), Fx(s.slant.ValueInRadians()), Fx(s.pinch), Fx(s.hue_offset_in_full_turns), Fx(s.saturation_multiplier), Fx(s.luminosity_shift), Fx(s.opacity_multiplier)};
}
typedef std::vector<std::vector<int>> Tips;
static bool Same(const std::vector<BrushTipState>& a, const std::vector<BrushTipState>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) { float x[] = {a[i].width, a[i].height, a[i].position.x, a[i].position.y, a[i].percent_radius, a[i].rotation.ValueInRadians(), a[i].slant.ValueInRadians(), a[i].pinch, a[i].hue_offset_in_full_turns, a[i].saturation_multiplier, a[i].luminosity_shift, a[i].opacity_multiplier};
    float y[] = {b[i].width, b[i].height, b[i].position.x, b[i].position.y, b[i].percent_radius, b[i].rotation.ValueInRadians(), b[i].slant.ValueInRadians(), b[i].pinch, b[i].hue_offset_in_full_turns, b[i].saturation_multiplier, b[i].luminosity_shift, b[i].opacity_multiplier};
    for (int k = 0; k < 12; ++k) if (Enc(x[k]) != Enc(y[k])) return false; }
  return true;
}
static Tips TipsFx(const std::vector<BrushTipState>& v) { Tips r; for (auto& s : v) r.push_back(TipFx(s)); return r; }
static J Cmp(const std::vector<BrushTipState>& all, const std::vector<BrushTipState>& ref) { bool s = Same(all, ref); J j; j.B("same", s).A("tips", s ? Tips{} : TipsFx(ref)); return j; }

static void Nodes(Trace& t) {
  Rng g(Seed()); auto bs = Behaviours(); t.Auto(60);
  for (size_t i = 0; i < bs.size(); ++i) for (int rep = 0; rep < Scale(1, 4); ++rep) {
    Machine m(Program(bs[i], g, false)); auto st = RandomState(g); int fmt = g.Int(0, 7); float size = float(g.Int(1, 8)), time = 0, d = 0; std::optional<InputMetrics> prev;
    for (int k = 0; k < 3; ++k) {
      time += g.Chance(1, 4) ? 0 : 0.05f * g.Unit(); d += g.Chance(1, 4) ? 0 : 5 * g.Unit();
      if (g.Chance(1, 5)) fmt = g.Int(0, 7);
      auto in = RandomInput(g, fmt, time, d); std::optional<Angle> dir; std::optional<double> dv; if (g.Chance(3, 4)) { dir = Angle::Radians(3.14f * (2 * g.Unit() - 1)); dv = dir->ValueInRadians(); }
      m.Run(&t, st, in, dir, dv, size, prev); prev = InputMetrics{d, Duration32::Seconds(time)};
    }
  }
}
static void TipStates(Trace& t) {
  Rng g(Seed() + 1); t.Auto(60);
  for (int r = 0; r < Scale(3000, 60000); ++r) {
    int size = g.Int(1, 12); int bw = g.Int(4, 32), bh = g.Int(4, 32); BrushTip tip;
    int rot = g.Int(-60, 60), slant = g.Int(-25, 25), pinch = g.Int(0, 16), round = g.Int(0, 16), op = g.Int(0, 32);
    tip.scale = {float(bw) / 16, float(bh) / 16}; tip.rotation = Angle::Radians(float(rot) / 16); tip.slant = Angle::Radians(float(slant) / 16); tip.pinch = float(pinch) / 16; tip.corner_rounding = float(round) / 16; tip.opacity_multiplier = float(op) / 16;
    std::vector<Tgt> ts; std::vector<float> ms; std::vector<std::vector<std::string>> out; std::string mods = "["; int n = g.Int(0, 4), per[15] = {};
    for (int i = 0; i < n; ++i) { int k = g.Int(0, 14); int grp = k <= 2 ? 0 : k; if (++per[grp] > 2) continue; int m = g.Chance(1, 6) ? g.Int(-200, 200) : g.Int(-24, 40); if (kFirst[k] == 1) m = std::clamp(m, -48, 48); ts.push_back(kTargets[k]); ms.push_back(float(m) / 16); mods += std::string(mods.size() > 1 ? "," : "") + "[\"" + kTargetNames[k] + "\"," + std::to_string(m) + "]"; }
    static const double dirs[][2] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}, {0.6, 0.8}, {-0.8, 0.6}, {0.28, -0.96}};
    bool travel = g.Chance(3, 4); auto& d = g.Pick(dirs); std::optional<Angle> dir; if (travel) dir = Angle::Radians(float(std::atan2(d[1], d[0])));
    int px = g.Int(-50, 50), py = g.Int(-50, 50);
    auto s = CreateTipState({float(px) / 16, float(py) / 16}, dir, tip, float(size), ts, ms);
    auto fx = [](double v) { return Fx(v, 65536, 30000); };
    J b; b.I("w", size * bw).I("h", size * bh).I("rot", rot).I("slant", slant).I("pinch", pinch).I("round", round).I("opac", op).I("x", px).I("y", py).I("size", size);
    J q; q.I("w", fx(s.width)).I("h", fx(s.height)).I("rot", fx(s.rotation.ValueInRadians())).I("slant", fx(s.slant.ValueInRadians())).I("pinch", fx(s.pinch)).I("round", fx(s.percent_radius)).I("hue", fx(s.hue_offset_in_full_turns)).I("sat", fx(s.saturation_multiplier))
        .I("lum", fx(s.luminosity_shift)).I("opac", fx(s.opacity_multiplier)).I("x", fx(s.position.x)).I("y", fx(s.position.y));
    t(J("tip").Raw("mods", mods + "]").Raw("base", b.Str()).Raw("tip", q.Str()).B("travel", travel).A("dir", std::vector<int>{int(std::lround(d[0] * 4096)), int(std::lround(d[1] * 4096))}));
  }
}
static void Mixes(Trace& t) {
  Rng g(Seed() + 2);
  for (int r = 0; r < Scale(600, 6000); ++r) {
    int fmt = g.Int(0, 7); auto a = RandomInput(g, fmt, g.Unit(), 3 * g.Unit()), b = RandomInput(g, fmt, g.Unit(), 3 * g.Unit()); a.velocity = {g.Unit(), 1}; b.velocity = {g.Unit(), -1}; a.acceleration = b.acceleration = {1, 1};
    float w = g.Chance(1, 5) ? float(g.Int(0, 1)) : g.Unit(); auto m = ink::strokes_internal::Lerp(a, b, w);
    auto opt = [](const ModeledStrokeInput& i) { return std::vector<float>{i.pressure, i.tilt.ValueInRadians(), i.orientation.ValueInRadians()}; };
    auto row = [&](float x, float y, float z) { return std::vector<int>{Fx(x), Fx(y), Fx(w), Fx(z)}; };
    std::vector<std::vector<int>> x = {row(a.position.x, b.position.x, m.position.x), row(a.position.y, b.position.y, m.position.y), row(a.velocity.x, b.velocity.x, m.velocity.x), row(a.velocity.y, b.velocity.y, m.velocity.y), row(a.traveled_distance, b.traveled_distance, m.traveled_distance), row(a.elapsed_time.ToSeconds(), b.elapsed_time.ToSeconds(), m.elapsed_time.ToSeconds()), row(a.acceleration.x, b.acceleration.x, m.acceleration.x)};
    if (fmt & 1) x.push_back(row(a.pressure, b.pressure, m.pressure));
    if (fmt & 2) x.push_back(row(a.tilt.ValueInRadians(), b.tilt.ValueInRadians(), m.tilt.ValueInRadians()));
    t(J("mix").A("a", opt(a)).A("r", opt(m)).A("x", x));
  }
}
// ---- the tip modeler over histories
struct Follow {
  Trace& t; const BrushTip& tip; float size; BrushTipModeler& m; std::vector<BrushTipState> fixed; std::vector<BB::Node> nodes; bool direct; double bound = 0;
  Follow(Trace& tr, const BrushTip& b, float s, BrushTipModeler& mo) : t(tr), tip(b), size(s), m(mo) {
    m.StartStroke(&tip, size); direct = tip.particle_gap_distance_scale == 0 && tip.particle_gap_duration == Duration32::Zero();
    for (auto& x : tip.behaviors) for (auto& n : x.nodes) { nodes.push_back(n); if (auto* s = std::get_if<BB::SourceNode>(&n)) if (Since(s->source)) bound = std::max(bound, double(std::max(s->source_value_range[0], s->source_value_range[1])) * (s->source == Src::kTimeSinceInputInMillis ? 0.001 : 1)); }
  }
  std::vector<BrushTipState> Meant(const StrokeInputModeler::State& st, absl::Span<const ModeledStrokeInput> in) {
    Machine mc(nodes); std::vector<BrushTipState> r; std::optional<InputMetrics> prev;
    for (size_t i = 0; i < in.size(); ++i) {
      Point a = in[i ? i - 1 : 0].position, b = in[i + 1 < in.size() ? i + 1 : i].position; std::optional<Angle> dir; if (a != b) dir = (b - a).Direction();
      mc.Run(nullptr, st, in[i], dir, std::nullopt, size, prev); r.push_back(CreateTipState(in[i].position, dir, tip, size, mc.targets, mc.mods)); prev = InputMetrics{in[i].traveled_distance, in[i].elapsed_time};
    }
    return r;
  }
  void Update(const StrokeInputModeler::State& st, absl::Span<const ModeledStrokeInput> in) {
    m.UpdateStroke(st, in);
    std::vector<BrushTipState> nw(m.NewFixedTipStates().begin(), m.NewFixedTipStates().end()), vol(m.VolatileTipStates().begin(), m.VolatileTipStates().end()), all = fixed;
    all.insert(all.end(), nw.begin(), nw.end()); fixed = all; all.insert(all.end(), vol.begin(), vol.end());
    BrushTipModeler once; once.StartStroke(&tip, size); once.UpdateStroke(st, in);
    std::vector<BrushTipState> ref(once.NewFixedTipStates().begin(), once.NewFixedTipStates().end()); ref.insert(ref.end(), once.VolatileTipStates().begin(), once.VolatileTipStates().end());
    t(J("update").A("new", TipsFx(nw)).A("volatile", TipsFx(vol)).Raw("whole", Cmp(all, ref).Str()).Raw("meant", direct ? Cmp(all, Meant(st, in)).Str() : J().B("same", true).Str()).B("direct", direct).I("inputs", long(in.size())).I("stable", long(st.stable_input_count))
        .B("unfinished", m.HasUnfinishedTimeBehaviors(st)).I("since", Fx(double(st.complete_elapsed_time.ToSeconds()) - st.total_real_elapsed_time.ToSeconds())).I("bound", Fx(bound)));
  }
};
static void Histories(Trace& t) {
  Rng g(Seed() + 3); auto bs = Behaviours(); BrushTipModeler one;
  for (int r = 0; r < Scale(260, 5000); ++r) {
    t.Reset(); BrushTip tip; float size = 10;
    for (int i = g.Int(0, 3); i > 0; --i) { BB b{Program(g.Pick(bs), g, true)}; tip.behaviors.push_back(b); }
    if (r % 2) for (int i = g.Int(1, 2); i > 0; --i) { Src s = g.Pick(kSources); auto& rg = g.Pick(kRanges); tip.behaviors.push_back(Simple(s, rg[0] * (Since(s) ? 0.2f : 1), rg[1] * (Since(s) ? 0.2f : 1), g.Pick(kTargets), 0.5f, 1.25f, Since(s) ? Oor::kClamp : Oor(g.Int(0, 2)))); }
    if (g.Chance(1, 4)) { if (g.Chance(2, 3)) tip.particle_gap_distance_scale = 0.25f * float(g.Int(1, 6)); if (tip.particle_gap_distance_scale == 0 || g.Chance(1, 2)) tip.particle_gap_duration = Duration32::Millis(float(g.Int(5, 40))); }
    BrushTipModeler fresh; Follow f(t, tip, size, g.Chance(1, 2) ? one : fresh); StrokeInputModeler in; if (g.Chance(1, 2)) in.StartStroke(ink::BrushFamily::SpringModelV1{}, 0.5f); else in.StartStroke(ink::BrushFamily::SpringModelV2{}, 0.5f);
    Pen pen(g, g.Chance(1, 2) ? 3.f : 12.f); auto all = pen.Run(g.Int(1, 14)); size_t i = 0; float now = 0; int waits = 2;
    while (i < all.size() || waits-- > 0) {
      size_t m = i < all.size() ? std::min(all.size() - i, size_t(g.Int(0, 5))) : 0; std::vector<ink::StrokeInput> part(all.begin() + long(i), all.begin() + long(i + m)), pred; i += m;
      if (i < all.size() && g.Chance(1, 2)) { Pen q = pen; auto& last = all[i ? i - 1 : 0]; q.x = last.position.x + 1; q.y = last.position.y + 2; q.t = last.elapsed_time.ToSeconds(); pred = q.Run(g.Int(1, 3)); }
      now = std::max(now, (i ? all[i - 1].elapsed_time.ToSeconds() : 0) + 0.01f * float(g.Int(0, 4)) + (i < all.size() ? 0 : 0.05f));
      in.ExtendStroke(part.empty() ? ink::StrokeInputBatch() : MkBatch(part), pred.empty() ? ink::StrokeInputBatch() : MkBatch(pred), Duration32::Seconds(now));
      f.Update(in.GetState(), in.GetModeledInputs());
    }
  }
}
// Modeled inputs on a coarse lattice, so that directions vanish and come back; what lies behind the stable inputs is remade in every update.
static void LatticeHistories(Trace& t) {
  Rng g(Seed() + 6); auto bs = Behaviours(); BrushTipModeler one;
  const Src dirs[] = {Src::kDirectionInRadians, Src::kDirectionAboutZeroInRadians, Src::kNormalizedDirectionX, Src::kNormalizedDirectionY, Src::kAccelerationForwardInMultiplesOfBrushSizePerSecondSquared, Src::kAccelerationLateralInMultiplesOfBrushSizePerSecondSquared};
  for (int r = 0; r < Scale(200, 4000); ++r) {
    t.Reset(); BrushTip tip; float size = 4;
    for (int i = g.Int(1, 2); i > 0; --i) tip.behaviors.push_back(Simple(g.Pick(dirs), -1, g.Chance(1, 2) ? 1.f : 3.f, g.Pick(kTargets), 0.5f, 1.25f, Oor(g.Int(0, 2))));
    if (g.Chance(1, 3)) tip.behaviors.push_back(Simple(Src::kDistanceRemainingInMultiplesOfBrushSize, 0, 0.25f * float(g.Int(1, 4)), g.Pick(kTargets), 0.5f, 1.25f));
    for (int i = g.Int(0, 2); i > 0; --i) tip.behaviors.push_back(BB{Program(g.Pick(bs), g, true)});
    if (g.Chance(1, 6)) tip.particle_gap_distance_scale = 0.25f * float(g.Int(1, 3));
    BrushTipModeler fresh; Follow f(t, tip, size, g.Chance(1, 2) ? one : fresh); int fmt = g.Int(0, 7);
    std::vector<ModeledStrokeInput> in; size_t stable = 0; float now = 0;
    auto add = [&]() {
      float tm = in.empty() ? 0 : in.back().elapsed_time.ToSeconds() + 0.0078125f * float(g.Int(0, 3)); auto m = RandomInput(g, fmt, tm, 0);
      ink::Point p = in.empty() ? ink::Point{0, 0} : in.back().position; if (!in.empty()) { int k = g.Int(0, 3), d = g.Int(1, 2); if (in.size() > 1 && g.Chance(2, 5)) m.position = in[in.size() - 2].position; else m.position = {p.x + float(k == 0 ? d : k == 1 ? -d : 0), p.y + float(k == 2 ? d : k == 3 ? -d : 0)}; } else m.position = p;
      m.traveled_distance = in.empty() ? 0 : in.back().traveled_distance + (m.position - p).Magnitude(); in.push_back(m);
    };
    for (int u = g.Int(1, 9); u > 0; --u) {
      in.resize(stable); for (int i = g.Int(0, 4); i > 0; --i) add(); stable = in.size();
      for (int i = g.Int(0, 2); i > 0; --i) add(); size_t real = in.size(); for (int i = g.Chance(1, 2) ? 0 : g.Int(1, 3); i > 0; --i) add();
      StrokeInputModeler::State st; st.stable_input_count = stable; st.real_input_count = real;
      if (!in.empty()) { st.complete_traveled_distance = in.back().traveled_distance; now = std::max(now, in.back().elapsed_time.ToSeconds() + (g.Chance(1, 3) ? 0.05f : 0)); }
      st.complete_elapsed_time = Duration32::Seconds(now); if (real) { st.total_real_distance = in[real - 1].traveled_distance; st.total_real_elapsed_time = in[real - 1].elapsed_time; }
      f.Update(st, in);
    }
  }
}
// Particles along a straight path at exact (dyadic) positions and times.
static void ParticleRuns(Trace& t) {
  Rng g(Seed() + 4); t.Auto(40);
  for (int r = 0; r < Scale(600, 6000); ++r) {
    BrushTip tip; int gd = g.Int(0, 6), gt = g.Int(gd ? 0 : 1, 5); tip.particle_gap_distance_scale = float(gd) / 4; tip.particle_gap_duration = Duration32::Seconds(float(gt) / 64); float size = 4;   // gap: gd units of distance, gt/64 s
    std::vector<ModeledStrokeInput> in; int x = 0, w = 0; int n = g.Int(1, 8);
    std::vector<double> xs, ws;
    for (int i = 0; i < n; ++i) { if (i) { x += g.Chance(1, 4) ? 0 : g.Int(1, 12); w += g.Chance(1, 3) ? 0 : 1 << g.Int(0, 3); } ModeledStrokeInput m; m.position = {float(x), 2}; m.traveled_distance = float(x); m.elapsed_time = Duration32::Seconds(float(w) / 64); in.push_back(m); xs.push_back(x); ws.push_back(w); }
    // expected: positions where both gaps have been covered, moving linearly from each input to the next
    std::vector<int> ex = {Fx(0, 4096, 1e5)}; double lx = 0, lw = 0; bool tie = false, exact = true;
    for (int i = 1; i < n; ++i) for (;;) {
      double a = 0, dx = xs[size_t(i)] - xs[size_t(i - 1)], dw = ws[size_t(i)] - ws[size_t(i - 1)];
      double nx = lx + gd, nw = lw + gt;
      if (!exact && ((gd && std::fabs(xs[size_t(i)] - nx) < 1e-3) || (gt && std::fabs(ws[size_t(i)] - nw) < 1e-3))) tie = true;   // rounding decides
      if (xs[size_t(i)] < nx - 1e-9 || ws[size_t(i)] < nw - 1e-9) break;
      if (gd && dx > 0) a = std::max(a, (nx - xs[size_t(i - 1)]) / dx); if (gt && dw > 0) a = std::max(a, (nw - ws[size_t(i - 1)]) / dw);
      if (a > 1) a = 1;
      lx = xs[size_t(i - 1)] + a * dx; lw = ws[size_t(i - 1)] + a * dw; ex.push_back(Fx(lx, 4096, 1e5));
      double q = a * 64; if (gt || std::fabs(q - std::round(q)) > 1e-9) exact = false;
    }
    if (tie) continue;
    StrokeInputModeler::State st; st.stable_input_count = size_t(g.Int(0, n)); st.real_input_count = size_t(n); st.complete_elapsed_time = st.total_real_elapsed_time = in.back().elapsed_time; st.complete_traveled_distance = st.total_real_distance = in.back().traveled_distance;
    BrushTipModeler m; m.StartStroke(&tip, size); m.UpdateStroke(st, in);
    std::vector<BrushTipState> all(m.NewFixedTipStates().begin(), m.NewFixedTipStates().end()); all.insert(all.end(), m.VolatileTipStates().begin(), m.VolatileTipStates().end());
    t(J("particles").A("tips", TipsFx(all)).A("expect", ex).A("xs", FxV(std::vector<float>(xs.begin(), xs.end()))).I("gd", gd).I("gt", gt));
  }
}
int main() { Trace t; Nodes(t); TipStates(t); Mixes(t); ParticleRuns(t); t.Auto(0); Histories(t); LatticeHistories(t); }
