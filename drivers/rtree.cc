// C17: static R-trees of many sizes and branching factors over boxes of every kind, queried with boxes that touch, miss and cover.
#include <array>
#include "common.h"
#include "ink/geometry/internal/static_rtree.h"
#include "ink/geometry/rect.h"
using namespace verif;
using ink::Rect;
static Trace* T;
static std::vector<int> Codes(const Rect& r) { return {Enc(r.XMin()), Enc(r.YMin()), Enc(r.XMax()), Enc(r.YMax())}; }
static Rect Make(float a, float b, float c, float d) { return Rect::FromTwoPoints({a, b}, {c, d}); }
static float Odd(Rng& g) {
  static const float some[] = {0, 1, -1, 0.1f, 1e-40f, -1e-40f, 3e38f, -3e38f, 1e-7f, 1 + 1.2e-7f, 16777216, 16777218};
  if (g.Chance(1, 2)) return g.Pick(some);
  float f; do f = g.Bits(); while (!std::isfinite(f));
  return f;
}
static Rect RandomBox(Rng& g, int style, int spread) {
  auto c = [&] { return float(g.Int(0, spread)); };
  switch (style) {
    case 0: return Make(c(), c(), c(), c());                                      // any
    case 1: { float x = c(), y = c(); return Make(x, y, x + g.Int(0, 2), y + g.Int(0, 2)); }  // small
    case 2: { float x = c(), y = c(); return Make(x, y, x, y); }                   // points
    case 3: { float x = c(); return Make(x, 0, x, float(spread)); }                // lines
    case 4: return Make(3, 3, 5, 5);                                               // all equal
    default: return Make(Odd(g), Odd(g), Odd(g), Odd(g));
  }
}
template <uint32_t B> static void Tree(Rng& g, int n, int style, int spread, int queries) {
  std::vector<Rect> boxes; for (int i = 0; i < n; ++i) boxes.push_back(RandomBox(g, style, spread));
  std::vector<int> ids(n); for (int i = 0; i < n; ++i) ids[i] = i;
  auto bounds = [&boxes](const int& i) { return boxes[size_t(i)]; };
  using Tr = ink::geometry_internal::StaticRTree<int, B>;
  int how = g.Int(0, 2), next = 0;
  Tr tree = how == 1 ? Tr(uint32_t(n), [&next] { return next++; }, bounds) : Tr(absl::MakeConstSpan(ids), bounds);
  if (how == 2) { Tr copy = tree; tree = std::move(copy); }
  std::vector<std::vector<int>> els; for (auto& b : boxes) els.push_back(Codes(b));
  T->Reset(); (*T)(J("tree").I("n", (long long)tree.Elements().size()).A("els", els).I("b", B));
  auto query = [&](const Rect& q, int after) {
    std::vector<int> seen;
    tree.VisitIntersectedElements(q, [&](const int& i) { seen.push_back(i + 1); return !(after && int(seen.size()) >= after); });
    (*T)(J("query").A("q", Codes(q)).I("after", after).A("seen", seen));
  };
  for (int k = 0; k < queries; ++k) {
    Rect q;
    int kind = n ? g.Int(0, 5) : g.Int(3, 5);
    if (kind <= 2) {
      const Rect& b = g.Pick(boxes);
      float x = g.Chance(1, 2) ? b.XMin() : b.XMax(), y = g.Chance(1, 2) ? b.YMin() : b.YMax();
      if (kind == 0) q = Make(x, y, x, y);
      else if (kind == 1) q = Make(x, y, std::nextafter(x, -1e38f), std::nextafter(y, 1e38f));      // touches in a corner
      else q = Make(std::nextafter(b.XMax(), 1e38f), b.YMin(), std::nextafter(b.XMax(), 1e38f), b.YMax());  // misses by one step
    } else if (kind == 3) q = Make(-3e38f, -3e38f, 3e38f, 3e38f);
    else q = RandomBox(g, g.Chance(1, 3) ? 5 : g.Int(0, 3), spread);
    query(q, g.Chance(1, 3) ? g.Int(1, 5) : 0);
  }
}
int main() {
  Trace t; T = &t;
  Rng g(Seed() * 41 + 1);
  ink::geometry_internal::StaticRTree<int> none;
  t.Reset(); t(J("tree").I("n", 0).A("els", std::vector<int>()).I("b", 16));
  { int n = 0; none.VisitIntersectedElements(Make(-1, -1, 1, 1), [&](const int&) { ++n; return true; }); t(J("query").A("q", Codes(Make(-1, -1, 1, 1))).I("after", 0).A("seen", std::vector<int>(n, 0))); }
  auto any = [&](int n, int style, int spread, int q) {
    switch (g.Int(0, 5)) { case 0: Tree<2>(g, n, style, spread, q); break; case 1: Tree<3>(g, n, style, spread, q); break; case 2: Tree<4>(g, n, style, spread, q); break; case 3: Tree<5>(g, n, style, spread, q); break; case 4: Tree<16>(g, n, style, spread, q); break; default: Tree<32>(g, n, style, spread, q); }
  };
  // every small size for every branching factor
  for (int n = 0; n <= Scale(40, 90); ++n) { Tree<2>(g, n, g.Int(0, 5), 9, 5); Tree<3>(g, n, g.Int(0, 5), 9, 5); Tree<4>(g, n, g.Int(0, 5), 12, 5); Tree<16>(g, n, g.Int(0, 5), 12, 5); }
  for (int n : {63, 64, 65, 80, 81, 82, 255, 256, 257, 258, 272, 273, 512, 625, 626, 1000}) any(n, g.Int(0, 5), 30, 6);
  for (int i = 0; i < Scale(150, 3000); ++i) any(g.Int(0, g.Chance(1, 10) ? 700 : 120), g.Int(0, 5), g.Int(2, 40), 12);
  for (int n : Thorough() ? std::vector<int>{4095, 4096, 4097, 4113, 6000} : std::vector<int>{4096, 4097, 4500}) Tree<16>(g, n, g.Int(0, 2), 300, 6);
}
