#ifndef COMPAT_INK_STROKE_MODELER_TYPES_H_
#define COMPAT_INK_STROKE_MODELER_TYPES_H_
// Stand-in for the google/ink-stroke-modeler dependency (not available offline). Deterministic, with the same interface
// contract that ink relies on: kDown/kMove/kUp protocol, Save/Restore, smoothed and upsampled results, time ordered.
#include <cmath>
namespace ink::stroke_model {
struct Vec2 {
  float x = 0, y = 0;
  float Magnitude() const { return std::hypot(x, y); }
  friend bool operator==(Vec2 a, Vec2 b) { return a.x == b.x && a.y == b.y; }
  friend Vec2 operator+(Vec2 a, Vec2 b) { return {a.x + b.x, a.y + b.y}; }
  friend Vec2 operator-(Vec2 a, Vec2 b) { return {a.x - b.x, a.y - b.y}; }
  friend Vec2 operator*(float s, Vec2 a) { return {s * a.x, s * a.y}; }
  friend Vec2 operator*(Vec2 a, float s) { return {s * a.x, s * a.y}; }
};
class Duration {
 public:
  Duration() = default;
  explicit Duration(double v) : v_(v) {}
  double Value() const { return v_; }
  friend auto operator<=>(Duration a, Duration b) = default;
 private: double v_ = 0;
};
class Time {
 public:
  Time() = default;
  explicit Time(double v) : v_(v) {}
  double Value() const { return v_; }
  friend auto operator<=>(Time a, Time b) = default;
 private: double v_ = 0;
};
struct Input {
  enum class EventType { kDown, kMove, kUp };
  EventType event_type; Vec2 position{0}; Time time{0}; float pressure = -1; float tilt = -1; float orientation = -1;
};
struct Result {
  Vec2 position{0, 0}; Vec2 velocity{0, 0}; Vec2 acceleration{0, 0}; Time time{0}; float pressure = -1; float tilt = -1; float orientation = -1;
};
}
namespace ink { namespace stroke_model_compat {} }
#endif
