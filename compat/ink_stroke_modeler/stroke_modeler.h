#ifndef COMPAT_INK_STROKE_MODELER_STROKE_MODELER_H_
#define COMPAT_INK_STROKE_MODELER_STROKE_MODELER_H_
#include <algorithm>
#include <optional>
#include <vector>
#include "absl/status/status.h"
#include "ink_stroke_modeler/params.h"
#include "ink_stroke_modeler/types.h"
namespace ink::stroke_model {
class StrokeModeler {
 public:
  absl::Status Reset(const StrokeModelParams& p) {
    if (!(p.sampling_params.min_output_rate > 0) || !(p.sampling_params.end_of_stroke_stopping_distance > 0))
      return absl::InvalidArgumentError("bad sampling params");
    params_ = p; st_ = {}; saved_.reset();
    return absl::OkStatus();
  }
  void Save() { saved_ = st_; }
  void Restore() { if (saved_) st_ = *saved_; }
  absl::Status Update(const Input& in, std::vector<Result>& out) {
    if (!(std::isfinite(in.position.x) && std::isfinite(in.position.y) && std::isfinite(in.time.Value())))
      return absl::InvalidArgumentError("non-finite input");
    if (in.event_type == Input::EventType::kDown) {
      if (st_.last) return absl::FailedPreconditionError("kDown while a stroke is in progress");
      st_.last = in; st_.pos = in.position; st_.vel = {0, 0};
      out.push_back({in.position, {0, 0}, {0, 0}, in.time, in.pressure, in.tilt, in.orientation});
      return absl::OkStatus();
    }
    if (!st_.last) return absl::FailedPreconditionError("no stroke in progress");
    if (in.time.Value() < st_.last->time.Value()) return absl::InvalidArgumentError("inputs travel back in time");
    if (in.time == st_.last->time && in.position == st_.last->position && in.event_type == st_.last->event_type)
      return absl::InvalidArgumentError("duplicate input");
    double dt = in.time.Value() - st_.last->time.Value();
    int n = std::clamp(int(std::ceil(dt * params_.sampling_params.min_output_rate)), 1, 64);
    // Positions follow a first order lag towards the interpolated anchor (a smoothing filter with memory).
    for (int i = 1; i <= n; ++i) Step(*st_.last, in, double(i) / n, dt / n, 0.5f, out);
    if (in.event_type == Input::EventType::kUp) {
      for (int i = 0; i < params_.sampling_params.end_of_stroke_max_iterations; ++i) {
        if ((in.position - st_.pos).Magnitude() < params_.sampling_params.end_of_stroke_stopping_distance) break;
        Step(in, in, 1, 1.0 / params_.sampling_params.min_output_rate, 0.75f, out);
      }
      st_.last.reset();
      return absl::OkStatus();
    }
    st_.last = in;
    return absl::OkStatus();
  }
 private:
  struct State { std::optional<Input> last; Vec2 pos, vel; double extra_time = 0; } st_;
  static float Lerp(float a, float b, double t) { return a < 0 || b < 0 ? b : float(a + (b - a) * t); }
  void Step(const Input& a, const Input& b, double t, double dt, float gain, std::vector<Result>& out) {
    Vec2 anchor = a.position + float(t) * (b.position - a.position);
    Vec2 p = st_.pos + gain * (anchor - st_.pos);
    Vec2 v = dt > 0 ? float(1 / dt) * (p - st_.pos) : st_.vel;
    Vec2 acc = dt > 0 ? float(1 / dt) * (v - st_.vel) : Vec2{0, 0};
    st_.pos = p; st_.vel = v;
    double time = a.time.Value() + (b.time.Value() - a.time.Value()) * t;
    if (&a == &b) { st_.extra_time += dt; time = b.time.Value() + st_.extra_time; } else { st_.extra_time = 0; }
    out.push_back({p, v, acc, Time(time), Lerp(a.pressure, b.pressure, t), Lerp(a.tilt, b.tilt, t), Lerp(a.orientation, b.orientation, t)});
  }
  StrokeModelParams params_;
  std::optional<State> saved_;
};
}
#endif
