// Stand-in for libtess2 (not available offline): tessellates the interior of closed contours by cutting it into vertical slabs. Quadratic, meant for small inputs.
#include <algorithm>
#include <cmath>
#include <map>
#include <vector>
#include "libtess2/tesselator.h"
namespace {
struct Pt { double x, y; };
constexpr double kEps = 1e-9;
}  // namespace
struct TESStesselator {
  std::vector<std::vector<Pt>> contours;
  std::vector<float> vertices; std::vector<TESSindex> origin, elements; int count = 0;
  int At(Pt p) {
    for (size_t i = 0; i < pool.size(); ++i) if (std::fabs(pool[i].x - p.x) < kEps * 100 && std::fabs(pool[i].y - p.y) < kEps * 100) return int(i);
    pool.push_back(p); vertices.push_back(float(p.x)); vertices.push_back(float(p.y));
    TESSindex o = TESS_UNDEF, n = 0; for (auto& c : contours) for (auto& q : c) { if (o == TESS_UNDEF && std::fabs(q.x - p.x) < kEps * 100 && std::fabs(q.y - p.y) < kEps * 100) o = n; ++n; }
    origin.push_back(o); return int(pool.size()) - 1;
  }
  std::vector<Pt> pool;
};
static bool Inside(int w, int rule) {
  switch (rule) { case TESS_WINDING_ODD: return w % 2 != 0; case TESS_WINDING_NONZERO: return w != 0; case TESS_WINDING_POSITIVE: return w > 0; case TESS_WINDING_NEGATIVE: return w < 0; default: return std::abs(w) >= 2; }
}
extern "C" {
TESStesselator* tessNewTess(TESSalloc*) { return new TESStesselator; }
void tessDeleteTess(TESStesselator* t) { delete t; }
void tessAddContour(TESStesselator* t, int size, const void* p, int stride, int n) {
  (void)size; t->contours.emplace_back(); const char* c = static_cast<const char*>(p);
  for (int i = 0; i < n; ++i) { const float* f = reinterpret_cast<const float*>(c + size_t(i) * size_t(stride)); t->contours.back().push_back({f[0], f[1]}); }
}
int tessTesselate(TESStesselator* t, int rule, int type, int poly, int vsize, const TESSreal*) {
  if (type != TESS_CONNECTED_POLYGONS || poly != 3 || vsize != 2) return 0;
  struct E { Pt a, b; int w; }; std::vector<E> es; std::vector<double> xs;
  for (auto& c : t->contours) for (size_t i = 0; i < c.size(); ++i) {
    Pt a = c[i], b = c[(i + 1) % c.size()]; if (!std::isfinite(a.x) || !std::isfinite(a.y)) return 0;
    xs.push_back(a.x); if (a.x < b.x) es.push_back({a, b, 1}); else if (a.x > b.x) es.push_back({b, a, -1});
  }
  for (size_t i = 0; i < es.size(); ++i) for (size_t j = i + 1; j < es.size(); ++j) {
    Pt u{es[i].b.x - es[i].a.x, es[i].b.y - es[i].a.y}, v{es[j].b.x - es[j].a.x, es[j].b.y - es[j].a.y}, w{es[j].a.x - es[i].a.x, es[j].a.y - es[i].a.y};
    double d = u.x * v.y - u.y * v.x; if (d == 0) continue; double r = (w.x * v.y - w.y * v.x) / d, s = (w.x * u.y - w.y * u.x) / d;
    if (r >= 0 && r <= 1 && s >= 0 && s <= 1) xs.push_back(es[i].a.x + r * u.x);
  }
  std::sort(xs.begin(), xs.end()); std::vector<double> cuts; for (double x : xs) if (cuts.empty() || x - cuts.back() > kEps) cuts.push_back(x);
  auto y = [](const E& e, double x) { return e.a.y + (e.b.y - e.a.y) * ((x - e.a.x) / (e.b.x - e.a.x)); };
  std::vector<std::vector<int>> tris;
  auto tri = [&](Pt a, Pt b, Pt c) { int i = t->At(a), j = t->At(b), k = t->At(c); if (i != j && j != k && i != k) tris.push_back({i, j, k}); };
  for (size_t k = 0; k + 1 < cuts.size(); ++k) {
    double x0 = cuts[k], x1 = cuts[k + 1], xm = (x0 + x1) / 2; std::vector<const E*> in; for (auto& e : es) if (e.a.x < xm && e.b.x > xm) in.push_back(&e);
    std::sort(in.begin(), in.end(), [&](const E* a, const E* b) { return y(*a, xm) < y(*b, xm); });
    int w = 0; const E* low = nullptr;
    for (size_t i = 0; i < in.size();) {
      bool was = Inside(w, rule); const E* here = in[i]; double at = y(*here, xm); while (i < in.size() && y(*in[i], xm) - at < kEps) w += in[i++]->w;
      bool is = Inside(w, rule); if (is && !was) low = here;
      if (was && !is) { Pt a{x0, y(*low, x0)}, b{x1, y(*low, x1)}, c{x1, y(*here, x1)}, d{x0, y(*here, x0)}; tri(a, b, c); tri(a, c, d); }
    }
  }
  std::map<std::pair<int, int>, int> edge; for (size_t i = 0; i < tris.size(); ++i) for (int v = 0; v < 3; ++v) edge[{tris[i][size_t(v)], tris[i][size_t((v + 1) % 3)]}] = int(i);
  for (auto& f : tris) { for (int v : f) t->elements.push_back(v); for (int v = 0; v < 3; ++v) { auto it = edge.find({f[size_t((v + 1) % 3)], f[size_t(v)]}); t->elements.push_back(it == edge.end() ? TESS_UNDEF : it->second); } }
  t->count = int(tris.size()); return 1;
}
int tessGetVertexCount(TESStesselator* t) { return int(t->pool.size()); }
const TESSreal* tessGetVertices(TESStesselator* t) { return t->vertices.data(); }
const TESSindex* tessGetVertexIndices(TESStesselator* t) { return t->origin.data(); }
int tessGetElementCount(TESStesselator* t) { return t->count; }
const TESSindex* tessGetElements(TESStesselator* t) { return t->elements.data(); }
}
