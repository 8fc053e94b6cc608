// C09: StrokeInputModeler directly.
#include "stroke_values.h"
#include "ink/strokes/internal/stroke_input_modeler.h"
using namespace verif;
using ink::Duration32; using ink::StrokeInputBatch;
using ink::strokes_internal::StrokeInputModeler;
typedef std::vector<ink::StrokeInput> V;
static StrokeInputBatch B(const V& v) { return v.empty() ? StrokeInputBatch() : MkBatch(v); }
static V Turned(V v) { for (auto& i : v) i.position = {-i.position.y, i.position.x}; return v; }
struct Watch {
  Trace& t; StrokeInputModeler& m; float eps; V done; StrokeInputModeler turned;   // turned: is given the same inputs turned by a quarter
  Watch(Trace& tr, StrokeInputModeler& mo, int model, float e) : t(tr), m(mo), eps(e) {
    for (auto* x : {&m, &turned}) { if (model == 1) x->StartStroke(ink::BrushFamily::SpringModelV1{}, eps); else x->StartStroke(ink::BrushFamily::SpringModelV2{}, eps); }
    Log("start", {}, {}, 0);
  }
  template <class X> static std::vector<int> Row(const X& x) { return {Enc(x.position.x), Enc(x.position.y), Enc(x.elapsed_time.ToSeconds()), Enc(x.traveled_distance), Enc(x.velocity.x), Enc(x.velocity.y), Enc(x.acceleration.x), Enc(x.acceleration.y), Enc(x.pressure), Enc(x.tilt.ValueInRadians()), Enc(x.orientation.ValueInRadians())}; }
  void Log(const char* f, const V& r, const V& p, float now) {
    auto& s = m.GetState(); auto ins = m.GetModeledInputs();
    std::vector<std::vector<int>> q, tq; for (auto& x : turned.GetModeledInputs()) tq.push_back(Row(x)); std::vector<std::array<int, 2>> d;
    for (size_t i = 0; i < ins.size(); ++i) {
      auto& x = ins[i];
      q.push_back(Row(x));
      float delta = i ? (x.position - ins[i - 1].position).Magnitude() : 0;
      d.push_back({Enc(delta), Enc(i ? ins[i - 1].traveled_distance + delta : 0.f)});
    }
    Digest all, st; for (size_t i = 0; i < q.size(); ++i) for (int x : q[i]) { all.U(uint64_t(int64_t(x))); if (i < s.stable_input_count) st.U(uint64_t(int64_t(x))); }
    t(J("model").I("g", all.Get()).I("sg", st.Get()).S("f", f).A("r", EncIns(r)).A("p", EncIns(p)).F("now", now).F("eps", eps).A("ins", q).A("turned", tq).A("d", d).I("stable", long(s.stable_input_count)).I("real", long(s.real_input_count))
          .I("tool", int(s.tool_type)).F("unit", s.stroke_unit_length ? s.stroke_unit_length->ToCentimeters() : 0).F("ct", s.complete_elapsed_time.ToSeconds()).F("cd", s.complete_traveled_distance).F("rt", s.total_real_elapsed_time.ToSeconds()).F("rd", s.total_real_distance));
  }
  void Extend(const V& r, const V& p, float now) { m.ExtendStroke(B(r), B(p), Duration32::Seconds(now)); turned.ExtendStroke(B(Turned(r)), B(Turned(p)), Duration32::Seconds(now)); Log("extend", r, p, now); }
};
int main() {
  Trace t; auto behaviours = Behaviours(); StrokeInputModeler one;
  for (int k = 0; k < 6; ++k) {
    Rng g(Seed() + uint64_t(k)); t.Reset(); Script sc(g, 10); float eps = k % 3 == 0 ? 0.1f : k % 3 == 1 ? 1.f : 6.f;
    for (size_t i = 0; i < behaviours.size(); ++i) {
      if (!Thorough() && i % 12 != size_t(k)) continue;
      StrokeInputModeler fresh; Watch w(t, i % 2 ? fresh : one, 1 + k % 2, eps); size_t n = 0; int waits = 0;
      for (auto& o : behaviours[i]) {
        auto a = [&](size_t j) { return std::stoi(o[j]); };
        if (o[0] == "u") { size_t r = size_t(a(1)); V part(sc.real.begin() + long(n), sc.real.begin() + long(n + r)); n += r; waits += a(4); w.Extend(part, sc.Pred(n, a(2), a(3)), sc.Time(n, waits)); }
        else w.Extend({}, {}, sc.Time(n, waits));
      }
    }
  }
  Rng g(Seed() + 9);
  for (int r = 0; r < Scale(150, 4000); ++r) {
    t.Reset(); Pen pen(g, g.Chance(1, 3) ? 2.f : 10.f); V all = pen.Run(g.Int(1, 25)); float eps = g.Chance(1, 3) ? 0.01f : g.Chance(1, 2) ? 1.f : 9.f; int model = g.Int(1, 2);
    for (int variant = 0; variant < 4; ++variant) {
      StrokeInputModeler fresh; Watch w(t, variant % 2 ? one : fresh, model, eps); size_t i = 0; float now = 0;
      while (i < all.size()) {
        size_t m = variant == 0 ? all.size() : std::min(all.size() - i, size_t(g.Int(0, variant == 1 ? 2 : 6)));
        V part(all.begin() + long(i), all.begin() + long(i + m)); i += m;
        V pred; if (variant >= 2 && g.Chance(3, 4)) { Pen q = pen; auto& last = all[i ? i - 1 : 0]; q.x = last.position.x + (g.Chance(1, 3) ? 0.01f : 1.f); q.y = last.position.y; q.t = last.elapsed_time.ToSeconds(); if (g.Chance(1, 4)) q.step *= 5; if (g.Chance(1, 4)) { q.step *= 0.01f; q.x = last.position.x - (last.position.x - all[i > 1 ? i - 2 : 0].position.x) * 0.5f; q.y = last.position.y - (last.position.y - all[i > 1 ? i - 2 : 0].position.y) * 0.5f; } pred = q.Run(g.Int(1, 5)); }
        if (g.Chance(3, 4) && i) now = std::max(now, all[i - 1].elapsed_time.ToSeconds() + 0.01f * float(g.Int(-1, 3)));
        w.Extend(part, pred, now);
      }
      w.Extend({}, {}, now + 0.1f);
    }
  }
}
