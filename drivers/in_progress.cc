// C04..C07: call sequences on ink::InProgressStroke. PROP selects what is recorded after every call.
#include <set>
#include "stroke_values.h"
#include "ink/strokes/internal/brush_tip_modeler.h"
#include "ink/strokes/internal/stroke_input_modeler.h"
using namespace verif;
using ink::Duration32; using ink::InProgressStroke; using ink::StrokeInput; using ink::StrokeInputBatch;
typedef std::vector<StrokeInput> V;
static StrokeInputBatch B(const V& v) { return v.empty() ? StrokeInputBatch() : MkBatch(v); }
static std::vector<int> Box(const ink::Envelope& e) { if (e.IsEmpty()) return {}; auto& r = *e.AsRect(); return {Enc(r.XMin()), Enc(r.YMin()), Enc(r.XMax()), Enc(r.YMax())}; }
static const BrushInfo& BrushNo(int k) { static std::map<int, BrushInfo> m; auto it = m.find(k); if (it == m.end()) it = m.emplace(k, MakeBrush(k)).first; return it->second; }

// ---- C04 ---------------------------------------------------------------------------------------------------------------
struct Lifecycle {
  Trace& t; std::unique_ptr<InProgressStroke> s; std::vector<ink::Stroke> copies; std::vector<std::vector<In8>> dummy;
  explicit Lifecycle(Trace& tr) : t(tr) {}
  void Start() { s = std::make_unique<InProgressStroke>(); copies.clear(); t.Reset(); }
  void Log(J j) {
    std::vector<int> cp; for (auto& c : copies) cp.push_back(StrokeDigest(c));
    long tris = 0; for (uint32_t c = 0; c < s->BrushCoatCount(); ++c) tris += s->GetMesh(c).TriangleCount() + s->GetMesh(c).VertexCount() + (s->GetMeshBounds(c).IsEmpty() ? 0 : 1);
    t(j.B("started", s->GetBrush() != nullptr).B("fin", s->InputsAreFinished()).A("ins", Inputs(s->GetInputs())).I("n", long(s->InputCount())).I("nreal", long(s->RealInputCount())).I("npred", long(s->PredictedInputCount()))
          .I("coats", s->BrushCoatCount()).I("g", GeometryDigest(*s)).I("size", tris).B("needs", s->NeedsUpdate()).B("noregion", s->GetUpdatedRegion().IsEmpty()).A("cp", cp));
  }
  void Begin(int k) { s->Start(BrushNo(k).brush); Log(J("call").S("f", "start").I("code", 0).I("bc", BrushNo(k).brush.CoatCount())); }
  void Clear() { s->Clear(); Log(J("call").S("f", "clear").I("code", 0)); }
  void Finish() { s->FinishInputs(); Log(J("call").S("f", "finish").I("code", 0)); }
  void ResetRegion() { s->ResetUpdatedRegion(); Log(J("call").S("f", "region").I("code", 0)); }
  void Enq(const V& r, const V& p) { auto st = s->EnqueueInputs(B(r), B(p)); Log(J("call").S("f", "enq").A("r", EncIns(r)).A("p", EncIns(p)).I("code", int(st.code()))); }
  void Update(float x) { auto st = s->UpdateShape(Duration32::Seconds(x)); Log(J("call").S("f", "update").F("t", x).I("code", int(st.code()))); }
  void Copy(bool all) {
    if (!s->GetBrush()) return;
    copies.push_back(s->CopyToStroke(all ? InProgressStroke::RetainAttributes::kAll : InProgressStroke::RetainAttributes::kUsedByThisBrush));
    auto& c = copies.back();
    Log(J("call").S("f", "copy").I("code", 0).A("cins", Inputs(c.GetInputs())).I("cgroups", c.GetShape().RenderGroupCount()).I("new", StrokeDigest(c)));
  }
};
static StrokeInput Table(int k) {
  switch (k) { case 1: return MkIn(1, 0, 0, 0); case 2: return MkIn(1, 20, 0, 1); case 3: return MkIn(1, 20, 20, 1); case 4: return MkIn(1, 0, 20, 2); case 5: return MkIn(2, 0, 0, 2); }
  std::exit(3);
}
static void C04(Trace& t) {
  Lifecycle w(t);
  for (auto& b : Behaviours()) {
    w.Start();
    for (auto& o : b) {
      auto n = [&](size_t i) { return std::stoi(o[i]); };
      auto list = [&](size_t i) { V v; for (char c : o[i]) if (c != '0') v.push_back(Table(c - '0')); return v; };
      if (o[0] == "start") w.Begin(n(1)); else if (o[0] == "clear") w.Clear(); else if (o[0] == "finish") w.Finish(); else if (o[0] == "region") w.ResetRegion();
      else if (o[0] == "enq") w.Enq(list(1), list(2)); else if (o[0] == "update") w.Update(float(n(1))); else if (o[0] == "copy") w.Copy(true); else std::exit(3);
    }
  }
  Rng g(Seed());
  for (int r = 0; r < Scale(150, 3000); ++r) {
    w.Start();
    std::unique_ptr<Pen> pen; V last; float now = 0;
    for (int k = 0; k < 26; ++k) {
      int brush = g.Int(1, kBrushCount);
      switch (g.Int(0, k == 0 ? 3 : 13)) {
        case 0: if (k == 0 || g.Chance(1, 3)) { w.Begin(brush); pen = std::make_unique<Pen>(g, 8.f); now = 0; } break;
        case 1: if (g.Chance(1, 4)) w.Clear(); break;
        case 2: if (g.Chance(1, 3)) w.Finish(); break;
        case 3: w.ResetRegion(); break;
        case 4: w.Copy(g.Chance(1, 2)); break;
        case 5: { // something wrong at a boundary: equal to the last input, backwards in time, another tool or format
          if (!pen) break;
          V v; Pen q = *pen; switch (g.Int(0, 3)) { case 0: v = {q.At()}; break; case 1: q.t = q.t > 0.002f ? q.t - 0.002f : 0; q.x += 1; v = {q.At()}; break; case 2: q.tool = (q.tool + 1) % 4; v = q.Run(2); break; default: q.fmt ^= 1 << g.Int(0, 3); v = q.Run(1); }
          if (g.Chance(1, 2)) w.Enq(v, {}); else if (g.Chance(1, 2)) w.Enq({}, v); else { V p; p = pen->Run(1); pen->t = p[0].elapsed_time.ToSeconds(); w.Enq(p, v); } break; }
        case 6: case 7: case 8: { if (!pen) pen = std::make_unique<Pen>(g, 8.f); V a = pen->Run(g.Int(0, 4)); Pen q = *pen; V p = q.Run(g.Int(0, 3)); w.Enq(a, p); break; }
        case 9: { if (!pen) break; Pen q = *pen; w.Enq({}, q.Run(g.Int(1, 3))); break; }
        case 10: w.Update(g.Chance(1, 2) ? -0.001f : now - 0.001f); break;
        case 11: w.Update(g.Chance(1, 6) ? INFINITY : now); break;
        default: if (pen && pen->t > now) now = pen->t; now += 0.005f * float(g.Int(0, 8)); w.Update(now);
      }
    }
  }
}
// ---- C05 ---------------------------------------------------------------------------------------------------------------
struct Watched {
  Trace& t; const BrushInfo& bi; InProgressStroke& s;
  // What the implementation computes on the way, to recognize updates after which no tip state is volatile (see known_findings.jsonl).
  ink::strokes_internal::StrokeInputModeler im; std::vector<ink::strokes_internal::BrushTipModeler> tm; bool settled = false;
  V qr, qp, done, shown;
  Watched(Trace& tr, const BrushInfo& b, InProgressStroke& st) : t(tr), bi(b), s(st), tm(b.brush.CoatCount()) {
    im.StartStroke(bi.brush.GetFamily().GetInputModel(), bi.brush.GetEpsilon());
    for (uint32_t c = 0; c < tm.size(); ++c) tm[c].StartStroke(&bi.brush.GetCoats()[c].tips[0], bi.brush.GetSize());
    s.Start(bi.brush);
  }
  void Enq(const V& a, const V& p) { if (!s.EnqueueInputs(B(a), B(p)).ok()) std::exit(3); qr.insert(qr.end(), a.begin(), a.end()); qp = p; }
  void Upd(float time) {
    if (!s.UpdateShape(Duration32::Seconds(time)).ok()) std::exit(3);
    im.ExtendStroke(B(qr), B(qp), Duration32::Seconds(time));
    for (auto& m : tm) { m.UpdateStroke(im.GetState(), im.GetModeledInputs()); if (!m.NewFixedTipStates().empty() && m.VolatileTipStates().empty()) settled = true; }
    done.insert(done.end(), qr.begin(), qr.end()); shown = qp; qr.clear(); qp.clear();
    t(J("obs").A("real", EncIns(done)).A("pred", EncIns(shown)).F("t", time).I("g", CoreDigest(s)).B("settled", settled));
  }
};
static void C05(Trace& t) {
  auto behaviours = Behaviours();
  for (int k = 1; k <= kBrushCount; ++k) {
    Rng g(Seed() + uint64_t(k)); t.Reset(); Script sc(g, BrushNo(k).brush.GetSize()); InProgressStroke one;
    for (size_t i = 0; i < behaviours.size(); ++i) {
      if (!Thorough() && i % kBrushCount != size_t(k - 1)) continue;
      InProgressStroke fresh; Watched w(t, BrushNo(k), i % 2 ? fresh : one); size_t n = 0; int waits = 0;
      for (auto& o : behaviours[i]) {
        auto a = [&](size_t j) { return std::stoi(o[j]); };
        if (o[0] == "u") { size_t r = size_t(a(1)); V part(sc.real.begin() + long(n), sc.real.begin() + long(n + r)); n += r; waits += a(4); w.Enq(part, sc.Pred(n, a(2), a(3))); w.Upd(sc.Time(n, waits)); }
        else { w.s.FinishInputs(); w.qp.clear(); w.Upd(sc.Time(n, waits)); }
      }
    }
  }
  Rng g(Seed() + 5);
  InProgressStroke reused;
  for (int r = 0; r < Scale(180, 4000); ++r) {
    t.Reset();
    int k = 1 + r % kBrushCount; auto& bi = BrushNo(k);
    Pen pen(g, bi.brush.GetSize() * (g.Chance(1, 3) ? 0.15f : 1.f));
    V all = pen.Run(g.Int(1, g.Chance(1, 5) ? 40 : 12)); float end = all.back().elapsed_time.ToSeconds(), fin = end + 0.05f * float(g.Int(0, 12));
    V lastpred; if (g.Chance(1, 2)) { Pen q = pen; lastpred = q.Run(g.Int(1, 3)); }
    for (int variant = 0; variant < 5; ++variant) {
      InProgressStroke fresh; Watched w(t, bi, variant % 2 ? reused : fresh); InProgressStroke& s = w.s;
      size_t i = 0; auto &qr = w.qr, &qp = w.qp;
      auto enq = [&](const V& a, const V& p) { w.Enq(a, p); };
      auto upd = [&](float time) { w.Upd(time); };
      float now = 0;
      while (i < all.size()) {
        size_t m = variant == 0 ? all.size() : std::min(all.size() - i, size_t(g.Int(1, variant == 1 ? 2 : 6)));
        V part(all.begin() + long(i), all.begin() + long(i + m)); i += m;
        V pred; if (variant >= 2 && g.Chance(3, 4)) { Pen q = pen; q.x = part.back().position.x + (g.Chance(1, 3) ? 0.01f : 1.f); q.y = part.back().position.y; q.t = part.back().elapsed_time.ToSeconds(); if (g.Chance(1, 4)) q.step *= 5; if (g.Chance(1, 4)) q.step *= 0.01f; pred = q.Run(g.Int(1, 5)); }
        enq(part, pred);
        if (variant == 3 && g.Chance(1, 3)) { Pen q = pen; q.x = part.back().position.x + 2; q.y = part.back().position.y; q.t = part.back().elapsed_time.ToSeconds(); enq({}, q.Run(g.Int(1, 3))); }   // predictions replaced before being processed
        if (variant == 3 && i < all.size() && g.Chance(1, 3)) continue;                                          // several enqueues per update
        now = std::max(now, part.back().elapsed_time.ToSeconds()); upd(now);
        if (variant == 4 && g.Chance(1, 3)) { upd(now); }                                                      // an update with nothing new
        if (variant == 4 && g.Chance(1, 3)) { Pen q = pen; q.x = part.back().position.x - 3; q.y = part.back().position.y; q.t = part.back().elapsed_time.ToSeconds(); enq({}, q.Run(g.Int(1, 3))); upd(now); }  // new predictions only
      }
      if (!qr.empty()) upd(std::max(now, end));
      if (!lastpred.empty() && variant != 1) { enq({}, lastpred); upd(std::max(now, end)); }
      s.FinishInputs(); qp.clear();
      upd(std::max(now, fin));
    }
  }
}
// ---- C06 ---------------------------------------------------------------------------------------------------------------
typedef std::vector<float> Tri;
static std::multiset<Tri> Triangles(const ink::MutableMesh& m) {
  std::multiset<Tri> out;
  for (uint32_t i = 0; i < m.TriangleCount(); ++i) {
    Tri tr;
    for (uint32_t v : m.TriangleIndices(i)) { auto p = m.VertexPosition(v); tr.push_back(p.x); tr.push_back(p.y); }
    for (uint32_t v : m.TriangleIndices(i)) for (uint32_t a = 0; a < m.Format().Attributes().size(); ++a) {
      using A = ink::MeshFormat::AttributeId; auto id = m.Format().Attributes()[a].id;
      if (id != A::kOpacityShift && id != A::kColorShiftHsl && id != A::kSurfaceUv) continue;
      auto x = m.FloatVertexAttribute(v, a); for (int q = 0; q < int(x.Size()); ++q) tr.push_back(x[q]);
    }
    out.insert(tr);
  }
  return out;
}
static void AddTri(ink::Envelope& e, const Tri& t) { for (int i = 0; i < 3; ++i) e.Add(ink::Point{t[size_t(2 * i)], t[size_t(2 * i + 1)]}); }
struct RegionWatch {
  Trace& t; const BrushInfo& bi; InProgressStroke s; ink::strokes_internal::StrokeInputModeler im; std::vector<float> bounds; V qr, qp; bool fin = false;
  RegionWatch(Trace& tr, const BrushInfo& b) : t(tr), bi(b) {
    s.Start(bi.brush); im.StartStroke(bi.brush.GetFamily().GetInputModel(), bi.brush.GetEpsilon());
    for (float x : bi.time_bounds_ms) bounds.push_back(Duration32::Millis(x).ToSeconds());
    Needs("start");
  }
  void Needs(const char* f) {
    auto& st = im.GetState();
    t(J("needs").S("f", f).B("queued", !qr.empty() || !qp.empty()).F("since", (st.complete_elapsed_time - st.total_real_elapsed_time).ToSeconds()).A("bounds", bounds).B("needs", s.NeedsUpdate()));
  }
  void Enq(const V& a, const V& p) { if (!s.EnqueueInputs(B(a), B(p)).ok()) std::exit(3); qr.insert(qr.end(), a.begin(), a.end()); qp = p; Needs("enq"); }
  void Finish() { s.FinishInputs(); fin = true; qp.clear(); Needs("finish"); }
  void ResetRegion() { s.ResetUpdatedRegion(); t(J("region").A("region", Box(s.GetUpdatedRegion()))); }
  void Upd(float now) {
    std::vector<std::multiset<Tri>> before; ink::Envelope changed; long n = 0;
    for (uint32_t c = 0; c < s.BrushCoatCount(); ++c) before.push_back(Triangles(s.GetMesh(c)));
    if (!s.UpdateShape(Duration32::Seconds(now)).ok()) std::exit(3);
    im.ExtendStroke(B(qr), B(qp), Duration32::Seconds(now)); qr.clear(); qp.clear();
    for (uint32_t c = 0; c < s.BrushCoatCount(); ++c) {
      auto after = Triangles(s.GetMesh(c));
      std::vector<Tri> d; std::set_symmetric_difference(before[c].begin(), before[c].end(), after.begin(), after.end(), std::back_inserter(d));
      for (auto& x : d) AddTri(changed, x); n += long(d.size());
    }
    t(J("update").A("region", Box(s.GetUpdatedRegion())).A("changed", Box(changed)).I("n", n));
    Needs("update");
  }
};
static void C06(Trace& t) {
  auto behaviours = Behaviours();
  for (int k = 1; k <= kBrushCount; ++k) {
    Rng g(Seed() + uint64_t(k)); Script sc(g, BrushNo(k).brush.GetSize());
    for (size_t i = 0; i < behaviours.size(); ++i) {
      if (i % (Thorough() ? 3 : kBrushCount) != size_t(Thorough() ? k % 3 : k - 1)) continue;
      t.Reset(); RegionWatch w(t, BrushNo(k)); size_t n = 0; int waits = 0;
      for (auto& o : behaviours[i]) {
        auto a = [&](size_t j) { return std::stoi(o[j]); };
        if (o[0] == "u") { size_t r = size_t(a(1)); V part(sc.real.begin() + long(n), sc.real.begin() + long(n + r)); n += r; waits += a(4); w.Enq(part, sc.Pred(n, a(2), a(3))); w.Upd(sc.Time(n, waits)); }
        else if (o[0] == "g") w.ResetRegion();
        else { w.Finish(); w.Upd(sc.Time(n, waits)); }
      }
    }
  }
  Rng g(Seed() + 6);
  for (int r = 0; r < Scale(300, 7000); ++r) {
    t.Reset();
    int k = 1 + r % kBrushCount; auto& bi = BrushNo(k);
    RegionWatch w(t, bi);
    Pen pen(g, bi.brush.GetSize() * (g.Chance(1, 3) ? 0.2f : 1.f));
    float now = 0;
    for (int step = 0; step < g.Int(3, 16); ++step) {
      if (!w.fin && g.Chance(4, 5)) {
        V a = pen.Run(g.Int(0, 5)); Pen q = pen; if (g.Chance(1, 4)) q.step *= 4; V p = g.Chance(1, 2) ? q.Run(g.Int(0, 4)) : V();
        w.Enq(a, p);
      }
      if (!w.fin && g.Chance(1, 12)) w.Finish();
      if (g.Chance(1, 4)) w.ResetRegion();
      now = std::max(now, pen.t) + 0.01f * float(g.Int(0, g.Chance(1, 4) ? 30 : 2));
      w.Upd(now);
    }
  }
}
// ---- C07 ---------------------------------------------------------------------------------------------------------------
static void C07(Trace& t) {
  Rng g(Seed() + 7);
  for (int r = 0; r < Scale(240, 5000); ++r) {
    t.Reset();
    int k = 1 + r % kBrushCount; auto bi = BrushNo(k);
    if (g.Chance(2, 5)) { const float es[] = {0.3f, 0.5f, 0.7f, 1}; if (!bi.brush.SetEpsilon(bi.brush.GetSize() * g.Pick(es)).ok()) std::exit(3); }
    InProgressStroke s; s.Start(bi.brush);
    Pen pen(g, bi.brush.GetSize() * (g.Chance(1, 3) ? 0.2f : g.Chance(1, 8) && k != 4 && k != 13 && k != 15 ? 1000.f : 1.f));
    float now = 0;
    auto observe = [&]() {
      auto stroke = s.CopyToStroke(g.Chance(1, 2) ? InProgressStroke::RetainAttributes::kAll : InProgressStroke::RetainAttributes::kUsedByThisBrush);
      auto& sh = stroke.GetShape();
      std::vector<J> coats;
      for (uint32_t c = 0; c < s.BrushCoatCount(); ++c) {
        auto& m = s.GetMesh(c);
        std::vector<std::array<int, 2>> pos; std::vector<std::array<uint32_t, 3>> tri; std::vector<std::vector<uint32_t>> outl; int nonfinite = 0;
        for (uint32_t v = 0; v < m.VertexCount(); ++v) { auto p = m.VertexPosition(v); pos.push_back({Enc(p.x), Enc(p.y)}); for (uint32_t a = 0; a < m.Format().Attributes().size(); ++a) { auto x = m.FloatVertexAttribute(v, a); for (int q = 0; q < int(x.Size()); ++q) nonfinite += !std::isfinite(x[q]); } }
        for (uint32_t i = 0; i < m.TriangleCount(); ++i) tri.push_back(m.TriangleIndices(i));
        for (auto& o : s.GetCoatOutlines(c)) outl.emplace_back(o.begin(), o.end());
        J j; j.A("pos", pos).A("tri", tri).A("outl", outl).A("box", Box(s.GetMeshBounds(c))).I("nonfinite", nonfinite);
        // the copied stroke: for every triangle corner and outline point, how far (in packing steps, rounded up) it is from the original
        long steps = 0, ntri = 0; std::vector<size_t> olen; bool have = c < sh.RenderGroupCount();
        if (have) {
          auto err = [&](ink::Point a, ink::Point b, const ink::Mesh& me) { auto& cp = me.VertexAttributeUnpackingParams(me.VertexPositionAttributeIndex()); 
            for (int q = 0; q < 2; ++q) { double d = std::fabs(double(q ? a.y - b.y : a.x - b.x)), st = std::fabs(cp.components[q].scale), ulp = std::fabs(double(q ? a.y : a.x)) * 6e-7; long e = d <= ulp ? 0 : st > 0 ? long(std::ceil((d - ulp) / st)) : 1000; steps = std::max(steps, std::min(e, 100000l)); } };
          for (auto& me : sh.RenderGroupMeshes(c)) for (uint32_t i = 0; i < me.TriangleCount(); ++i, ++ntri) { if (ntri >= long(tri.size())) continue; auto ix = me.TriangleIndices(i); for (int q = 0; q < 3; ++q) err(m.VertexPosition(tri[size_t(ntri)][size_t(q)]), me.VertexPosition(ix[size_t(q)]), me); }
          std::set<uint32_t> used; for (auto& x : tri) used.insert(x.begin(), x.end());
          std::vector<std::vector<uint32_t>> kept; for (auto& o : outl) if (!o.empty()) { kept.emplace_back(); for (auto v : o) if (used.count(v)) kept.back().push_back(v); if (kept.back().empty()) kept.pop_back(); }
          for (uint32_t o = 0; o < sh.OutlineCount(c); ++o) { olen.push_back(sh.OutlineVertexCount(c, o)); if (o < kept.size()) for (uint32_t q = 0; q < olen.back() && q < kept[o].size(); ++q) { auto ip = sh.Outline(c, o)[q]; err(m.VertexPosition(kept[o][q]), sh.OutlinePosition(c, o, q), sh.RenderGroupMeshes(c)[ip.mesh_index]); } }
        }
        coats.push_back(j.I("steps", steps).I("ntri", ntri).A("olen", olen));
      }
      // how far, in packing steps, the vertices of the copy are outside of its bounds
      long boxsteps = 0;
      for (auto& me : sh.Meshes()) for (uint32_t v = 0; v < me.VertexCount(); ++v) {
        auto p = me.VertexPosition(v); auto& cp = me.VertexAttributeUnpackingParams(me.VertexPositionAttributeIndex()); auto bx = sh.Bounds().AsRect();
        for (int q = 0; q < 2; ++q) { double x = q ? p.y : p.x, lo = q ? bx->YMin() : bx->XMin(), hi = q ? bx->YMax() : bx->XMax(), d = std::max({0.0, lo - x, x - hi}) - std::fabs(x) * 6e-7, st = std::fabs(cp.components[q].scale);
          if (d > 0) boxsteps = std::max(boxsteps, st > 0 ? std::min(long(std::ceil(d / st)), 100000l) : 100000l); }
      }
      t(J("shape").I("bc", bi.brush.CoatCount()).I("groups", sh.RenderGroupCount()).I("n", long(s.InputCount())).A("coats", coats).A("sbox", Box(sh.Bounds())).I("boxsteps", boxsteps));
    };
    observe();
    for (int step = 0; step < g.Int(1, 8); ++step) {
      V a = pen.Run(g.Int(0, 6)); Pen q = pen; V p = g.Chance(1, 2) ? q.Run(g.Int(0, 3)) : V();
      if (!s.EnqueueInputs(B(a), B(p)).ok()) std::exit(3);
      now = std::max(now, pen.t) + 0.01f * float(g.Int(0, 2));
      if (!s.UpdateShape(Duration32::Seconds(now)).ok()) std::exit(3);
      if (g.Chance(1, 2)) observe();
    }
    s.FinishInputs(); if (!s.UpdateShape(Duration32::Seconds(now + 1)).ok()) std::exit(3);
    observe();
  }
}
int main() {
  Trace t; std::string p = Env("PROP", "C04");
  if (p == "C04") C04(t); else if (p == "C05") C05(t); else if (p == "C06") C06(t); else if (p == "C07") C07(t); else return 3;
}
