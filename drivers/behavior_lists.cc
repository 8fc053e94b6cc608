// C33: every node list of the specification, node by node and as a whole; nodes with every enumerator and number near and across its limits.
#include "part_values.h"
using namespace verif;
using ink::brush_internal::ValidateBrushBehavior; using ink::brush_internal::ValidateBrushBehaviorNode;
int main() {
  Trace t; t.Auto(3000); t.Reset();
  Rng g(Seed()); Parts p(g);
  auto node = [&](const Node& n) { t(J("node").Raw("v", JNode(n).Str()).B("ok", ValidateBrushBehaviorNode(n).ok())); };
  auto list = [&](const BrushBehavior& b) {
    bool ok = ValidateBrushBehavior(b).ok();
    // the same list once more: elsewhere in memory, and inside a tip (whose validity then is its behaviors')
    BrushTip tip; tip.behaviors = {b}; BrushBehavior copy = tip.behaviors[0];
    bool again = ValidateBrushBehavior(copy).ok();
    if (ink::brush_internal::ValidateBrushTip(tip).ok() != ok) again = !ok;
    t(J("behavior").Raw("v", JNodes(b)).B("ok", ok).B("again", again));
  };
  // the lists of the specification, complete or not
  for (auto& beh : Behaviours()) {
    BrushBehavior b; for (auto& op : beh) { char k = op[0][0]; if (k == 'K' && g.Chance(1, 2)) k = 'S'; if (k == 'F') k = "FL"[g.Int(0, 1)]; b.nodes.push_back(p.OfKind(k)); }
    list(b);
    if (g.Chance(1, 4) && !b.nodes.empty()) { p.wild = 900; b.nodes[size_t(g.Int(0, int(b.nodes.size()) - 1))] = p.OfKind(beh[0][0][0]); p.wild = 0; list(b); }
  }
  list(BrushBehavior{});
  // every enumerator value there can be
  for (int v = -128; v < 128; ++v) {
    for (int o = -1; o < 5; ++o) node(BrushBehavior::SourceNode{static_cast<BSrc>(v), static_cast<BOor>(o), {0, 1}});
    node(BrushBehavior::TargetNode{static_cast<BTgt>(v), {0, 1}});
    node(BrushBehavior::FallbackFilterNode{static_cast<BProp>(v)});
    node(BrushBehavior::SourceNode{BSrc::kTiltInRadians, static_cast<BOor>(v), {1, 0}});
  }
  for (int v : {-2147483647, -3, -2, -1, 0, 1, 2, 3, 4, 5, 254, 255, 256, 257, 65536, 65537, 2147483647}) {
    node(BrushBehavior::BinaryOpNode{static_cast<BrushBehavior::BinaryOp>(v)}); node(BrushBehavior::DampingNode{static_cast<BrushBehavior::DampingSource>(v), 1}); node(BrushBehavior::InterpolationNode{static_cast<BrushBehavior::Interpolation>(v)});
  }
  for (int b = 0; b < 16; ++b) node(BrushBehavior::ToolTypeFilterNode{{.unknown = bool(b & 1), .mouse = bool(b & 2), .touch = bool(b & 4), .stylus = bool(b & 8)}});
  for (int k = Scale(12000, 150000); k > 0; --k) { p.wild = g.Pick(std::vector<int>{0, 100, 300, 600}); node(p.AnyNode()); }
  for (int k = Scale(3000, 40000); k > 0; --k) { p.wild = g.Pick(std::vector<int>{0, 30, 100}); list(p.Behavior()); }
  // long lists: deep stacks and many trees
  p.wild = 0;
  for (int n : {50, 127, 128, 129, 255, 256, 257}) for (int d : {-1, 0, 1}) {
    BrushBehavior b; for (int i = 0; i < n; ++i) b.nodes.push_back(BrushBehavior::ConstantNode{1}); for (int i = 0; i < n - 1; ++i) b.nodes.push_back(BrushBehavior::BinaryOpNode{BrushBehavior::BinaryOp::kSum}); for (int i = 0; i < 1 + d; ++i) b.nodes.push_back(BrushBehavior::TargetNode{BTgt::kPinchOffset, {0, 1}}); list(b);
    BrushBehavior c; for (int i = 0; i < n; ++i) c.nodes.push_back(BrushBehavior::ConstantNode{1}); for (int i = 0; i < n + d; ++i) c.nodes.push_back(BrushBehavior::TargetNode{BTgt::kPinchOffset, {0, 1}}); list(c);
  }
  // equality: exactly the lists
  for (int k = Scale(6000, 60000); k > 0; --k) {
    if (g.Chance(1, 2)) {
      char kind = "SKFLDRBIT"[g.Int(0, 8)]; Node a = p.OfKind(kind), b = g.Chance(1, 3) ? a : p.OfKind(kind);
      if (auto* x = std::get_if<BrushBehavior::SourceNode>(&b)) { auto y = std::get<BrushBehavior::SourceNode>(a); switch (g.Int(0, 4)) { case 0: y.source = x->source; break; case 1: y.source_out_of_range_behavior = x->source_out_of_range_behavior; break; case 2: y.source_value_range[0] = x->source_value_range[0]; break; case 3: y.source_value_range[1] = x->source_value_range[1]; break; default: y = *x; } *x = y; }
      if (auto* x = std::get_if<BrushBehavior::TargetNode>(&b)) { auto y = std::get<BrushBehavior::TargetNode>(a); switch (g.Int(0, 3)) { case 0: y.target = x->target; break; case 1: y.target_modifier_range[0] = x->target_modifier_range[0]; break; case 2: y.target_modifier_range[1] = x->target_modifier_range[1]; break; default: y = *x; } *x = y; }
      if (auto* x = std::get_if<BrushBehavior::DampingNode>(&b)) { auto y = std::get<BrushBehavior::DampingNode>(a); if (g.Chance(1, 2)) y.damping_source = x->damping_source; else y.damping_gap = x->damping_gap; *x = y; }
      t(J("same").Raw("a", JNode(a).Str()).Raw("b", JNode(b).Str()).B("eq", a == b).B("ne", a != b));
    } else {
      BrushBehavior a = p.Behavior(), b = a;
      switch (g.Int(0, 4)) { case 0: break; case 1: if (!b.nodes.empty()) b.nodes.pop_back(); break; case 2: b.nodes.push_back(p.AnyNode()); break; case 3: b = p.Behavior(); break; default: if (!b.nodes.empty()) std::swap(b.nodes.front(), b.nodes.back()); }
      t(J("same").Raw("a", JNodes(a)).Raw("b", JNodes(b)).B("eq", a == b).B("ne", a != b));
    }
  }
}
