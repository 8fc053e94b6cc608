#ifndef VERIF_DRIVERS_INPUT_VALUES_H_
#define VERIF_DRIVERS_INPUT_VALUES_H_
#include <array>
#include "common.h"
#include "ink/strokes/input/stroke_input.h"
#include "ink/strokes/input/stroke_input_batch.h"
namespace verif {
using In8 = std::array<int, 8>;
inline In8 EncIn(const ink::StrokeInput& i) {
  return {int(i.tool_type), Enc(i.position.x), Enc(i.position.y), Enc(i.elapsed_time.ToSeconds()), Enc(i.stroke_unit_length.ToCentimeters()), Enc(i.pressure), Enc(i.tilt.ValueInRadians()), Enc(i.orientation.ValueInRadians())};
}
inline ink::StrokeInput MkIn(int tool, float x, float y, float t, float u = 0, float p = -1, float ti = -1, float o = -1) {
  return {.tool_type = ink::StrokeInput::ToolType(tool), .position = {x, y}, .elapsed_time = ink::Duration32::Seconds(t), .stroke_unit_length = ink::PhysicalDistance::Centimeters(u), .pressure = p, .tilt = ink::Angle::Radians(ti), .orientation = ink::Angle::Radians(o)};
}
inline std::vector<In8> EncIns(const std::vector<ink::StrokeInput>& v) { std::vector<In8> r; for (auto& i : v) r.push_back(EncIn(i)); return r; }
}
#endif
