// Observations of stroke geometry shared by the stroke drivers.
#ifndef VERIF_DRIVERS_STROKE_VALUES_H_
#define VERIF_DRIVERS_STROKE_VALUES_H_
#include <map>
#include "brushes.h"
#include "input_values.h"
#include "ink/geometry/mutable_mesh.h"
#include "ink/geometry/partitioned_mesh.h"
#include "ink/strokes/in_progress_stroke.h"
#include "ink/strokes/stroke.h"
namespace verif {
inline void AddEnvelope(Digest& d, const ink::Envelope& e) { d.U(e.IsEmpty()); if (!e.IsEmpty()) d.F(e.AsRect()->XMin()).F(e.AsRect()->YMin()).F(e.AsRect()->XMax()).F(e.AsRect()->YMax()); }
// Everything geometric an in-progress stroke reports.
inline int GeometryDigest(const ink::InProgressStroke& s) {
  Digest d; d.U(s.BrushCoatCount());
  for (uint32_t c = 0; c < s.BrushCoatCount(); ++c) {
    const ink::MutableMesh& m = s.GetMesh(c);
    d.U(m.VertexCount()).U(m.TriangleCount());
    auto vb = m.RawVertexData(); for (size_t i = 0; i + 4 <= vb.size(); i += 4) { float f; std::memcpy(&f, &vb[i], 4); d.F(f); }
    for (auto b : m.RawIndexData()) d.U(uint64_t(b));
    auto o = s.GetCoatOutlines(c); d.U(o.size()); for (auto& l : o) { d.U(l.size()); for (auto i : l) d.U(i); }
    AddEnvelope(d, s.GetMeshBounds(c));
  }
  return d.Get();
}
// The same without what may depend on the history: the derivatives and margins kept for anti-aliasing (approximations computed from the part of
// the mesh that an update touched) and the bounds (which may exceed the vertices).
inline int CoreDigest(const ink::InProgressStroke& s) {
  Digest d; d.U(s.BrushCoatCount());
  for (uint32_t c = 0; c < s.BrushCoatCount(); ++c) {
    const ink::MutableMesh& m = s.GetMesh(c);
    d.U(m.VertexCount()).U(m.TriangleCount());
    for (uint32_t a = 0; a < m.Format().Attributes().size(); ++a) {
      using A = ink::MeshFormat::AttributeId; auto id = m.Format().Attributes()[a].id;
      if (id == A::kSideDerivative || id == A::kForwardDerivative) continue;
      bool label = id == A::kSideLabel || id == A::kForwardLabel;
      for (uint32_t v = 0; v < m.VertexCount(); ++v) { auto x = m.FloatVertexAttribute(v, a); for (int i = 0; i < int(x.Size()); ++i) { if (label) d.U(0); else d.F(x[i]); } }
    }
    for (auto b : m.RawIndexData()) d.U(uint64_t(b));
    auto o = s.GetCoatOutlines(c); d.U(o.size()); for (auto& l : o) { d.U(l.size()); for (auto i : l) d.U(i); }
  }
  return d.Get();
}
inline int ShapeDigest(const ink::PartitionedMesh& p) {
  Digest d; d.U(p.RenderGroupCount());
  for (uint32_t g = 0; g < p.RenderGroupCount(); ++g) {
    auto ms = p.RenderGroupMeshes(g); d.U(ms.size());
    for (auto& m : ms) {
      d.U(m.VertexCount()).U(m.TriangleCount());
      for (uint32_t v = 0; v < m.VertexCount(); ++v) for (uint32_t a = 0; a < m.Format().Attributes().size(); ++a) { auto x = m.FloatVertexAttribute(v, a); for (int i = 0; i < int(x.Size()); ++i) d.F(x[i]); }
      for (uint32_t t = 0; t < m.TriangleCount(); ++t) for (auto i : m.TriangleIndices(t)) d.U(i);
    }
    d.U(p.OutlineCount(g));
    for (uint32_t o = 0; o < p.OutlineCount(g); ++o) for (auto v : p.Outline(g, o)) d.U(v.mesh_index).U(v.vertex_index);
  }
  AddEnvelope(d, p.Bounds());
  return d.Get();
}
inline std::vector<In8> Inputs(const ink::StrokeInputBatch& b) { std::vector<In8> r; for (size_t i = 0; i < b.Size(); ++i) r.push_back(EncIn(b.Get(i))); return r; }
inline int StrokeDigest(const ink::Stroke& s) {
  Digest d; for (auto& i : Inputs(s.GetInputs())) for (int v : i) d.U(uint64_t(int64_t(v)));
  d.U(uint64_t(ShapeDigest(s.GetShape()))).F(s.GetBrush().GetSize()).F(s.GetBrush().GetEpsilon()).U(s.GetBrush().CoatCount());
  return d.Get();
}
// A pen: valid inputs of one format, following each other.
struct Pen {
  Rng& g; float step; int tool, fmt; float x, y, t; bool fast;
  Pen(Rng& rng, float stepsize) : g(rng), step(stepsize) { tool = g.Int(0, 3); fmt = g.Int(0, 15); x = float(g.Int(-5, 5)); y = float(g.Int(-5, 5)); t = g.Chance(1, 2) ? 0 : 0.01f * float(g.Int(0, 20)); fast = g.Chance(1, 2); }
  ink::StrokeInput At() const { 
    Rng h(uint64_t(Enc(t)) * 31 + uint64_t(Enc(x)));
    return MkIn(tool, x, y, t, fmt & 1 ? 0.02f : 0, fmt & 2 ? h.Unit() : -1, fmt & 4 ? 1.5f * h.Unit() : -1, fmt & 8 ? 6.2f * h.Unit() : -1);
  }
  ink::StrokeInput Next() {
    switch (g.Int(0, 9)) {
      case 0: break;                                             // stays in place
      case 1: x += step * 0.01f; break;                          // less than epsilon
      case 2: x += step * 4 * (g.Unit() - 0.5f); y += step * 4 * (g.Unit() - 0.5f); break;
      case 3: x = -x; y = -y; break;
      default: x += step * g.Unit(); y += step * (g.Unit() - 0.3f);
    }
    t += fast ? 0.004f : 0.001f * float(g.Int(1, 40));
    return At();
  }
  std::vector<ink::StrokeInput> Run(int n) { std::vector<ink::StrokeInput> v; for (int i = 0; i < n; ++i) v.push_back(Next()); return v; }
};
inline ink::StrokeInputBatch MkBatch(const std::vector<ink::StrokeInput>& v) { auto b = ink::StrokeInputBatch::Create(v); if (!b.ok()) { std::fprintf(stderr, "pen: %s\n", std::string(b.status().message()).c_str()); std::exit(3); } return *b; }
// The inputs that the histories of specs/MC_Incremental.tla speak about.
struct Script {
  std::vector<ink::StrokeInput> real; float size, slow;
  Script(Rng& g, float sz) : size(sz) { Pen pen(g, sz * (g.Chance(1, 3) ? 0.2f : 1.f)); real = pen.Run(8); slow = 0.1f; }
  std::vector<ink::StrokeInput> Pred(size_t n, int p, int k) const {
    std::vector<ink::StrokeInput> v; if (k == 3) return std::vector<ink::StrokeInput>(real.begin() + long(n), real.begin() + long(n) + p);
    for (int i = 1; i <= p; ++i) { ink::StrokeInput x = real[n ? n - 1 : 0]; x.position += k == 1 ? ink::Vec{size * 0.4f * float(i), 0.1f * float(i)} : ink::Vec{-size * 1.5f * float(i), size * float(i)}; x.elapsed_time += ink::Duration32::Millis(8.f * float(i)); v.push_back(x); }
    return v;
  }
  float Time(size_t n, int waits) const { return real[n ? n - 1 : 0].elapsed_time.ToSeconds() + slow * float(waits); }
};
}  // namespace verif
#endif
