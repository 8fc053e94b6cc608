// C37: the native methods of the Java classes for strokes, batches, meshes and brushes, each call next to the C++ operation on a twin.
#include "mock_java.h"
#include <functional>
#include <memory>
#include <thread>
#include "part_values.h"
#include "stroke_values.h"
#include "absl/status/status.h"
#include "ink/geometry/mesh.h"
#include "ink/geometry/mesh_format.h"
#include "ink/strokes/internal/jni/stroke_input_jni_helper.h"
using namespace verif;
using ink::StrokeInput; using ink::StrokeInputBatch; using ink::Mesh; using ink::MeshFormat; using ink::PartitionedMesh; using ink::InProgressStroke; using ink::Stroke;
#define ENV JNIEnv*, jobject
#define NATIVE(R, name, ...) extern "C" R JNICALL Java_androidx_ink_##name(JNIEnv*, jobject __VA_OPT__(, ) __VA_ARGS__)
#define D2 jfloat, jfloat
NATIVE(jlong, strokes_StrokeInputBatchNative_createNativePeer); NATIVE(void, strokes_StrokeInputBatchNative_freeNativePeer, jlong); NATIVE(jint, strokes_StrokeInputBatchNative_getSize, jlong);
NATIVE(void, strokes_StrokeInputBatchNative_populate, jlong, jint, jobject, jclass); NATIVE(jlong, strokes_StrokeInputBatchNative_getDurationMillis, jlong); NATIVE(jint, strokes_StrokeInputBatchNative_getToolType, jlong);
NATIVE(jfloat, strokes_StrokeInputBatchNative_getStrokeUnitLengthCm, jlong); NATIVE(jboolean, strokes_StrokeInputBatchNative_hasStrokeUnitLength, jlong); NATIVE(jboolean, strokes_StrokeInputBatchNative_hasPressure, jlong);
NATIVE(jboolean, strokes_StrokeInputBatchNative_hasTilt, jlong); NATIVE(jboolean, strokes_StrokeInputBatchNative_hasOrientation, jlong);
NATIVE(jstring, strokes_MutableStrokeInputBatchNative_appendSingle, jlong, jint, jfloat, jfloat, jlong, jfloat, jfloat, jfloat, jfloat); NATIVE(jstring, strokes_MutableStrokeInputBatchNative_appendBatch, jlong, jlong);
NATIVE(void, strokes_MutableStrokeInputBatchNative_clear, jlong); NATIVE(jlong, strokes_MutableStrokeInputBatchNative_copy, jlong);
NATIVE(jlong, strokes_StrokeJni_createWithBrushAndInputs, jlong, jlong); NATIVE(jlong, strokes_StrokeJni_createWithBrushInputsAndShape, jlong, jlong, jlong); NATIVE(jlong, strokes_StrokeJni_allocShallowCopyOfInputs, jlong);
NATIVE(jlong, strokes_StrokeJni_allocShallowCopyOfShape, jlong); NATIVE(void, strokes_StrokeJni_free, jlong);
#define WIP(R, name, ...) NATIVE(R, strokes_InProgressStroke_native##name __VA_OPT__(, ) __VA_ARGS__)
WIP(jlong, CreateInProgressStroke); WIP(void, FreeInProgressStroke, jlong); WIP(void, Clear, jlong); WIP(void, Start, jlong, jlong); WIP(jstring, EnqueueInputs, jlong, jlong, jlong); WIP(jstring, UpdateShape, jlong, jlong);
WIP(void, FinishInput, jlong); WIP(jboolean, IsInputFinished, jlong); WIP(jboolean, NeedsUpdate, jlong); WIP(jlong, CopyToStroke, jlong); WIP(jint, InputCount, jlong); WIP(jint, RealInputCount, jlong); WIP(jint, PredictedInputCount, jlong);
WIP(jint, FillInputs, jlong, jlong, jint, jint); WIP(void, GetAndOverwriteInput, jlong, jobject, jint, jclass); WIP(jint, BrushCoatCount, jlong); WIP(void, GetMeshBounds, jlong, jint, jobject); WIP(void, FillUpdatedRegion, jlong, jobject);
WIP(void, ResetUpdatedRegion, jlong); WIP(jint, GetOutlineCount, jlong, jint); WIP(jint, GetOutlineVertexCount, jlong, jint, jint); WIP(void, FillOutlinePosition, jlong, jint, jint, jint, jobject); WIP(jint, GetMeshPartitionCount, jlong, jint);
WIP(jint, GetVertexCount, jlong, jint, jint); WIP(jobject, GetRawVertexData, jlong, jint, jint); WIP(jobject, GetRawTriangleIndexData, jlong, jint, jint); WIP(jint, GetTriangleIndexStride, jlong, jint); WIP(jlong, AllocMeshFormatCopy, jlong, jint, jint);
#define PM(R, name, ...) NATIVE(R, geometry_PartitionedMeshNative_##name __VA_OPT__(, ) __VA_ARGS__)
PM(void, free, jlong); PM(jlongArray, getNativeAddressesOfMeshes, jlong, jint); PM(jint, getRenderGroupCount, jlong); PM(jlong, getRenderGroupFormat, jlong, jint); PM(jint, getOutlineCount, jlong, jint); PM(jint, getOutlineVertexCount, jlong, jint, jint);
PM(void, fillOutlineMeshIndexAndMeshVertexIndex, jlong, jint, jint, jint, jintArray); PM(jlong, alloc); PM(void, initializeSpatialIndex, jlong); PM(jboolean, isSpatialIndexInitialized, jlong);
#define ME(R, name, ...) NATIVE(R, geometry_MeshNative_##name __VA_OPT__(, ) __VA_ARGS__)
ME(void, freeNative, jlong); ME(jobject, createRawVertexBuffer, jlong); ME(jint, getVertexStride, jlong); ME(jint, getVertexCount, jlong); ME(jobject, createRawTriangleIndexBuffer, jlong); ME(jint, getTriangleCount, jlong); ME(jint, getAttributeCount, jlong);
ME(void, fillBounds, jlong, jobject); ME(jint, fillAttributeUnpackingParams, jlong, jint, jfloatArray, jfloatArray); ME(jlong, allocCopyOfFormat, jlong); ME(void, fillPosition, jlong, jint, jobject); ME(jlong, allocNativeNewEmptyMesh);
NATIVE(jboolean, geometry_MeshFormat_nativeIsPackedEquivalent, jlong, jlong); NATIVE(jboolean, geometry_MeshFormat_nativeIsUnpackedEquivalent, jlong, jlong); NATIVE(void, geometry_MeshFormat_nativeFree, jlong);
#define BEH(R, name, ...) NATIVE(R, brush_BrushBehavior_native##name __VA_OPT__(, ) __VA_ARGS__)
#define BEHIN(in, name, ...) NATIVE(void, brush_BrushBehavior_00024##in##_native##name __VA_OPT__(, ) __VA_ARGS__)
BEH(jlong, CreateEmptyBrushBehavior); BEH(jlong, ValidateOrDeleteAndThrow, jlong); BEH(void, FreeBrushBehavior, jlong); BEHIN(SourceNode, AppendSourceNode, jlong, jint, jfloat, jfloat, jint); BEHIN(ConstantNode, AppendConstantNode, jlong, jfloat);
BEHIN(FallbackFilterNode, AppendFallbackFilterNode, jlong, jint); BEHIN(ToolTypeFilterNode, AppendToolTypeFilterNode, jlong, jboolean, jboolean, jboolean, jboolean); BEHIN(DampingNode, AppendDampingNode, jlong, jint, jfloat);
BEHIN(ResponseNode, AppendResponseNodePredefined, jlong, jint); BEHIN(ResponseNode, AppendResponseNodeCubicBezier, jlong, jfloat, jfloat, jfloat, jfloat); BEHIN(ResponseNode, AppendResponseNodeSteps, jlong, jint, jint);
BEHIN(ResponseNode, AppendResponseNodeLinear, jlong, jfloatArray); BEHIN(BinaryOpNode, AppendBinaryOpNode, jlong, jint); BEHIN(InterpolationNode, AppendInterpolationNode, jlong, jint); BEHIN(TargetNode, AppendTargetNode, jlong, jint, jfloat, jfloat);
NATIVE(jlong, brush_BrushTip_nativeCreateBrushTip, D2, jfloat, jfloat, jfloat, jfloat, jfloat, jfloat, jlong, jint); NATIVE(void, brush_BrushTip_nativeAppendBehavior, jlong, jlong); NATIVE(void, brush_BrushTip_nativeFreeBrushTip, jlong);
NATIVE(jlong, brush_BrushPaint_nativeCreateBrushPaint, jint); NATIVE(void, brush_BrushPaint_nativeAppendTextureLayer, jlong, jlong); NATIVE(void, brush_BrushPaint_nativeFreeBrushPaint, jlong);
NATIVE(jlong, brush_BrushPaint_00024TextureLayer_nativeCreateTextureLayer, jstring, D2, D2, jfloat, jfloat, jint, jint, jint, jint, jint, jint); NATIVE(void, brush_BrushPaint_00024TextureLayer_nativeFreeTextureLayer, jlong);
NATIVE(jlong, brush_BrushCoat_nativeCreateBrushCoat, jlongArray, jlong); NATIVE(void, brush_BrushCoat_nativeFreeBrushCoat, jlong);
NATIVE(jlong, brush_BrushFamily_nativeCreateBrushFamily, jlongArray, jstring, jboolean); NATIVE(void, brush_BrushFamily_nativeFreeBrushFamily, jlong);
NATIVE(jlong, brush_Brush_nativeCreateBrush, jlong, jfloat, jfloat, jfloat, jfloat, jint, jfloat, jfloat); NATIVE(void, brush_Brush_nativeFreeBrush, jlong);
#define STR(name, ...) Java_androidx_ink_strokes_##name(env, nullptr __VA_OPT__(, ) __VA_ARGS__)
#define GEO(name, ...) Java_androidx_ink_geometry_##name(env, nullptr __VA_OPT__(, ) __VA_ARGS__)
#define BRU(name, ...) Java_androidx_ink_brush_##name(env, nullptr __VA_OPT__(, ) __VA_ARGS__)

using Ints = std::vector<int>;
// ---- values
static int Text(const std::string& s) { return Digest().S(s).Get(); }
static int Dig(const StrokeInputBatch& b) { Digest d; for (auto& i : Inputs(b)) for (int v : i) d.U(uint64_t(int64_t(v))); return d.Get(); }
static int Dig(const BrushBehavior& b) { return Text(JNodes(b)); }
static int Dig(const BrushTip& b) { return Text(JTip(b).Str()); }
static int Dig(const BrushPaint::TextureLayer& b) { return Text(JLayer(b).Str()); }
static int Dig(const BrushPaint& b) { return Text(JPaint(b)); }
static int Dig(const BrushCoat& b) { return Text(JCoat(b).Str()); }
static int Dig(const ink::BrushFamily& b) { Digest d; for (auto& c : b.GetCoats()) d.S(JCoat(c).Str()); d.U(b.GetUri() ? uint64_t(Text(b.GetUri()->ToNormalizedString())) : 7); return d.U(b.GetInputModel().index()).Get(); }
static int Dig(const ink::Brush& b) {
  Digest d; d.U(uint64_t(Dig(b.GetFamily()))).F(b.GetSize()).F(b.GetEpsilon()); auto c = b.GetColor().AsFloat(ink::Color::Format::kGammaEncoded); return d.F(c.r).F(c.g).F(c.b).F(c.a).U(uint64_t(b.GetColor().GetColorSpace())).Get();
}
static int Dig(const MeshFormat& f) { Digest d; for (auto& a : f.Attributes()) d.U(uint64_t(a.id)).U(uint64_t(a.type)).U(a.packed_width).U(a.unpacked_width).U(a.packed_offset).U(a.unpacked_offset); return d.U(uint64_t(f.GetIndexFormat())).Get(); }
static int Dig(const Mesh& m) {
  Digest d; d.U(m.VertexCount()).U(m.TriangleCount()).U(uint64_t(Dig(m.Format())));
  for (auto b : m.RawVertexData()) d.U(uint64_t(b)); for (auto b : m.RawIndexData()) d.U(uint64_t(b)); return d.Get();
}
static int Dig(const PartitionedMesh& m) { return ShapeDigest(m); }
static int Dig(const Stroke& s) { return Digest().U(uint64_t(Dig(s.GetInputs()))).U(uint64_t(Dig(s.GetShape()))).U(uint64_t(Dig(s.GetBrush()))).Get(); }

static MockJava* vm; static JNIEnv* env; static Trace* tr; static bool quiet = false;
struct Peer { std::string kind; jlong p; std::shared_ptr<void> twin; std::function<int()> seen, want; };
struct World {
  std::map<int, Peer> peers; int next = 1;
  Ints got, want;
  template <typename T> T& Twin(int h) { return *static_cast<T*>(peers.at(h).twin.get()); }
  jlong P(int h) { return peers.at(h).p; }
  void Start() { vm->Clear(); peers.clear(); next = 1; if (!quiet) tr->Reset(); Heap::Forget(); }
  std::vector<int> Of(const std::string& k) { std::vector<int> r; for (auto& [h, p] : peers) if (p.kind == k) r.push_back(h); return r; }
  template <typename T> Peer MakePeer(const std::string& k, jlong p, const T& twin) {
    auto t = std::make_shared<T>(twin); return Peer{k, p, t, [p] { return Dig(*reinterpret_cast<T*>(p)); }, [t] { return Dig(*t); }};
  }
  struct New { Peer peer; };
  int last_new = 0;
  // one call: what it did according to the twin (self: the object it was called on), and what can be seen
  void Log(const char* f, int self, const absl::Status& s, jobject text, std::vector<Peer> made, bool frees = false, bool changes = false) {
    bool fresh = true; std::vector<J> nw; std::vector<int> ids; last_new = 0;
    std::vector<std::pair<int, jlong>> were; for (auto& [h, p] : peers) were.push_back({h, p.p});
    if (frees) peers.erase(self);
    for (auto& p : made) {
      if (p.p == 0 || p.p == -1) { fresh = false; continue; }
      for (auto& [h, q] : peers) if (q.p == p.p) fresh = false;
      int h = next++; last_new = h; ids.push_back(h); peers[h] = p;
      nw.push_back(J().I("h", h).S("k", p.kind).I("v", p.want()));
    }
    J mut = J(); std::vector<J> mv; if (changes && peers.count(self)) mv.push_back(J().I("h", self).I("v", peers.at(self).want()));
    std::vector<J> seen; for (auto& [h, p] : peers) seen.push_back(J().I("h", h).S("k", p.kind).I("v", p.seen()));
    std::string bad; for (auto& m : vm->misuse) bad += m + "; ";
    J j("call"); j.S("f", f).I("self", self).S("code", absl::StatusCodeToString(s.code())).S("msg", s.ok() ? "" : s.ToString());
    j.S("exc", vm->pending ? vm->pending->cls : "").S("excmsg", vm->pending ? vm->pending->text : "").B("hastext", text != nullptr).S("text", text ? MockJava::X(text)->text : "");
    j.A("new", nw).B("fresh", fresh).A("mut", mv).B("frees", frees).A("seen", seen).A("got", got).A("want", want).S("misuse", bad).I("held", long(vm->held.size()));
    if (!quiet) (*tr)(j); vm->pending = nullptr; got.clear(); want.clear();
  }
  void Look(const char* f, int self) { Log(f, self, absl::OkStatus(), nullptr, {}); }
  void End() { if (!quiet) (*tr)(J("end").I("peers", long(peers.size())).I("heap", Heap::live).I("held", long(vm->held.size()))); }
  // ---- Java objects
  jobject Box() { return MockJava::O(vm->New(PKG "/geometry/BoxAccumulator")); }
  void AddBox(jobject b, const ink::Envelope& e) { Untracked un;
    JObj* o = MockJava::X(b); if (o->calls.size() == 1 && o->calls[0] == "reset") got.push_back(-1); else if (o->calls.size() == 1) for (double d : o->f["overwriteFrom"]) got.push_back(Enc(float(d))); else got.push_back(int(o->calls.size()));
    if (e.IsEmpty()) want.push_back(-1); else { auto r = *e.AsRect(); for (float v : {r.XMin(), r.YMin(), r.XMax(), r.YMax()}) want.push_back(Enc(v)); }
  }
  jobject Vec2() { return MockJava::O(vm->New(PKG "/geometry/MutableVec")); }
  void AddVec(jobject b, ink::Point p) { Untracked un; JObj* o = MockJava::X(b); for (auto* m : {"setX", "setY"}) { auto& w = o->f[m]; got.push_back(w.size() == 1 ? Enc(float(w[0])) : kNaN); } want.push_back(Enc(p.x)); want.push_back(Enc(p.y)); }
  jobject JInput() { return MockJava::O(vm->New(PKG "/strokes/StrokeInput")); }
  void AddInput(jobject j, const StrokeInput& i) { Untracked un;
    JObj* o = MockJava::X(j); auto& w = o->f["update"]; if (w.size() != 7 || o->oa.size() != 1) { got.push_back(0); want.push_back(1); return; }
    int tool = o->oa[0]->f["value"].empty() ? -1 : int(o->oa[0]->f["value"][0]);
    for (int x : {tool, Enc(float(w[0])), Enc(float(w[1])), int(w[2]), Enc(float(w[3])), Enc(float(w[4])), Enc(float(w[5])), Enc(float(w[6]))}) got.push_back(x);
    for (int x : {int(i.tool_type), Enc(i.position.x), Enc(i.position.y), int(i.elapsed_time.ToMillis()), Enc(i.stroke_unit_length.ToCentimeters()), Enc(i.pressure), Enc(i.tilt.ValueInRadians()), Enc(i.orientation.ValueInRadians())}) want.push_back(x);
  }
  template <typename A, typename B> void Same(A a, B b) { Untracked un; got.push_back(int(a)); want.push_back(int(b)); }
  void SameF(float a, float b) { Untracked un; got.push_back(Enc(a)); want.push_back(Enc(b)); }
  jclass ToolClass() { return (jclass)vm->Class(PKG "/brush/InputToolType"); }
  void Bytes(jobject buf, absl::Span<const std::byte> b) { Untracked un;
    if (!buf || !b.data()) { Same(buf != nullptr, b.data() != nullptr); return; }
    JObj* o = MockJava::X(buf); Digest x, y; for (long i = 0; i < o->cap; ++i) x.U(static_cast<unsigned char*>(o->buf)[i]); for (auto c : b) y.U(uint64_t(c));
    Same(o->cap, b.size()); Same(x.Get(), y.Get());
  }
  jobject Arr(const std::vector<jlong>& v) { JObj* o = vm->New("[Long"); o->la = v; return MockJava::O(o); }
  // ---- batches
  int BatchNew() { jlong p; { Tracked t; p = STR(StrokeInputBatchNative_createNativePeer); } Log("batch.new", 0, absl::OkStatus(), nullptr, {MakePeer("batch", p, StrokeInputBatch())}); return last_new; }
  void BatchAppend(int h, const StrokeInput& i, long ms) {
    StrokeInput j = i; j.elapsed_time = ink::Duration32::Millis(float(ms)); jstring s;
    { Tracked t; s = STR(MutableStrokeInputBatchNative_appendSingle, P(h), int(i.tool_type), i.position.x, i.position.y, ms, i.stroke_unit_length.ToCentimeters(), i.pressure, i.tilt.ValueInRadians(), i.orientation.ValueInRadians()); }
    auto st = Twin<StrokeInputBatch>(h).Append(j); Log("batch.append", h, st, s, {}, false, st.ok());
  }
  void BatchJoin(int h, int k) { jstring s; { Tracked t; s = STR(MutableStrokeInputBatchNative_appendBatch, P(h), P(k)); } auto st = Twin<StrokeInputBatch>(h).Append(Twin<StrokeInputBatch>(k)); Log("batch.join", h, st, s, {}, false, st.ok()); }
  void BatchClear(int h) { { Tracked t; STR(MutableStrokeInputBatchNative_clear, P(h)); } Twin<StrokeInputBatch>(h).Clear(); Log("batch.clear", h, absl::OkStatus(), nullptr, {}, false, true); }
  int BatchCopy(int h) { jlong p; { Tracked t; p = STR(MutableStrokeInputBatchNative_copy, P(h)); } Log("batch.copy", h, absl::OkStatus(), nullptr, {MakePeer("batch", p, StrokeInputBatch(Twin<StrokeInputBatch>(h)))}); return last_new; }
  void BatchRead(int h) {
    Tracked t; jlong p = P(h); auto& b = Twin<StrokeInputBatch>(h);
    Same(STR(StrokeInputBatchNative_getSize, p), b.Size()); Same(STR(StrokeInputBatchNative_getDurationMillis, p), b.GetDuration().ToMillis()); Same(STR(StrokeInputBatchNative_getToolType, p), b.GetToolType());
    auto u = b.GetStrokeUnitLength(); SameF(STR(StrokeInputBatchNative_getStrokeUnitLengthCm, p), u ? u->ToCentimeters() : 0); Same(STR(StrokeInputBatchNative_hasStrokeUnitLength, p), b.HasStrokeUnitLength());
    Same(STR(StrokeInputBatchNative_hasPressure, p), b.HasPressure()); Same(STR(StrokeInputBatchNative_hasTilt, p), b.HasTilt()); Same(STR(StrokeInputBatchNative_hasOrientation, p), b.HasOrientation());
    for (size_t i = 0; i < b.Size(); ++i) { jobject j = JInput(); STR(StrokeInputBatchNative_populate, p, jint(i), j, ToolClass()); AddInput(j, b.Get(i)); }
    Untracked un; Look("batch.read", h);
  }
  // ---- freeing
  void Free(int h) {
    Peer q = peers.at(h); std::string f = q.kind + ".free"; jlong p = q.p;
    { Tracked t; const std::string& k = q.kind;
      if (k == "batch") STR(StrokeInputBatchNative_freeNativePeer, p); else if (k == "stroke") STR(StrokeJni_free, p); else if (k == "wip") STR(InProgressStroke_nativeFreeInProgressStroke, p); else if (k == "shape") GEO(PartitionedMeshNative_free, p);
      else if (k == "mesh") GEO(MeshNative_freeNative, p); else if (k == "format") GEO(MeshFormat_nativeFree, p); else if (k == "behavior") BRU(BrushBehavior_nativeFreeBrushBehavior, p); else if (k == "tip") BRU(BrushTip_nativeFreeBrushTip, p);
      else if (k == "layer") BRU(BrushPaint_00024TextureLayer_nativeFreeTextureLayer, p); else if (k == "paint") BRU(BrushPaint_nativeFreeBrushPaint, p); else if (k == "coat") BRU(BrushCoat_nativeFreeBrushCoat, p);
      else if (k == "family") BRU(BrushFamily_nativeFreeBrushFamily, p); else if (k == "brush") BRU(Brush_nativeFreeBrush, p); else std::exit(3); }
    Log(f.c_str(), h, absl::OkStatus(), nullptr, {}, true);
  }
  void FreeAll(Rng& g) { while (!peers.empty()) { auto it = peers.begin(); std::advance(it, g.Int(0, int(peers.size()) - 1)); Free(it->first); } End(); }
  // ---- strokes
  int StrokeNew(int brush, int batch) {
    jlong p, a = P(brush), b = P(batch);
    std::thread([&] { Tracked t; p = STR(StrokeJni_createWithBrushAndInputs, a, b); }).join();      // (buffers that the thread keeps go with it)
    Log("stroke.new", 0, absl::OkStatus(), nullptr, {MakePeer("stroke", p, Stroke(Twin<ink::Brush>(brush), Twin<StrokeInputBatch>(batch)))}); return last_new;
  }
  int StrokeShaped(int brush, int batch, int shape) {
    jlong p; { Tracked t; p = STR(StrokeJni_createWithBrushInputsAndShape, P(brush), P(batch), P(shape)); }
    Log("stroke.withShape", 0, absl::OkStatus(), nullptr, {MakePeer("stroke", p, Stroke(Twin<ink::Brush>(brush), Twin<StrokeInputBatch>(batch), Twin<PartitionedMesh>(shape)))}); return last_new;
  }
  int StrokeInputs(int s) { jlong p; { Tracked t; p = STR(StrokeJni_allocShallowCopyOfInputs, P(s)); } Log("stroke.inputs", s, absl::OkStatus(), nullptr, {MakePeer("batch", p, Twin<Stroke>(s).GetInputs())}); return last_new; }
  int StrokeShape(int s) { jlong p; { Tracked t; p = STR(StrokeJni_allocShallowCopyOfShape, P(s)); } Log("stroke.shape", s, absl::OkStatus(), nullptr, {MakePeer("shape", p, Twin<Stroke>(s).GetShape())}); return last_new; }
  // ---- shapes and meshes
  int ShapeNew() { jlong p; { Tracked t; p = GEO(PartitionedMeshNative_alloc); } Log("shape.new", 0, absl::OkStatus(), nullptr, {MakePeer("shape", p, PartitionedMesh())}); return last_new; }
  void ShapeRead(int s) {
    Tracked t; jlong p = P(s); auto& m = Twin<PartitionedMesh>(s);
    Same(GEO(PartitionedMeshNative_getRenderGroupCount, p), m.RenderGroupCount()); Same(GEO(PartitionedMeshNative_isSpatialIndexInitialized, p), m.IsSpatialIndexInitialized());
    for (uint32_t g = 0; g < m.RenderGroupCount(); ++g) {
      Same(GEO(PartitionedMeshNative_getOutlineCount, p, jint(g)), m.OutlineCount(g));
      for (uint32_t o = 0; o < m.OutlineCount(g); ++o) {
        auto l = m.Outline(g, o); Same(GEO(PartitionedMeshNative_getOutlineVertexCount, p, jint(g), jint(o)), l.size());
        for (size_t i = 0; i < l.size(); i += 1 + l.size() / 6) { JObj* a = vm->New("[Int"); { Untracked un; a->ia = {-7, -7}; } GEO(PartitionedMeshNative_fillOutlineMeshIndexAndMeshVertexIndex, p, jint(g), jint(o), jint(i), (jintArray)a); Same(a->ia[0], l[i].mesh_index); Same(a->ia[1], l[i].vertex_index); }
      }
    }
    Untracked un; Look("shape.read", s);
  }
  void ShapeIndex(int s) { { Tracked t; GEO(PartitionedMeshNative_initializeSpatialIndex, P(s)); } Twin<PartitionedMesh>(s).InitializeSpatialIndex(); Log("shape.index", s, absl::OkStatus(), nullptr, {}, false, true); }
  std::vector<int> ShapeMeshes(int s, int g) {
    jlongArray a; { Tracked t; a = GEO(PartitionedMeshNative_getNativeAddressesOfMeshes, P(s), g); }
    auto ms = Twin<PartitionedMesh>(s).RenderGroupMeshes(uint32_t(g)); auto& la = MockJava::X(a)->la; Same(la.size(), ms.size());
    std::vector<Peer> made; for (size_t i = 0; i < std::min(ms.size(), la.size()); ++i) made.push_back(MakePeer("mesh", la[i], ms[i]));
    int from = next; Log("shape.meshes", s, absl::OkStatus(), nullptr, made); std::vector<int> r; for (int h = from; h < next; ++h) r.push_back(h); return r;
  }
  int ShapeFormat(int s, int g) { jlong p; { Tracked t; p = GEO(PartitionedMeshNative_getRenderGroupFormat, P(s), g); } Log("shape.format", s, absl::OkStatus(), nullptr, {MakePeer("format", p, Twin<PartitionedMesh>(s).RenderGroupFormat(uint32_t(g)))}); return last_new; }
  int MeshNew() { jlong p; { Tracked t; p = GEO(MeshNative_allocNativeNewEmptyMesh); } Log("mesh.new", 0, absl::OkStatus(), nullptr, {MakePeer("mesh", p, Mesh())}); return last_new; }
  int MeshFormatCopy(int s) { jlong p; { Tracked t; p = GEO(MeshNative_allocCopyOfFormat, P(s)); } Log("mesh.format", s, absl::OkStatus(), nullptr, {MakePeer("format", p, Twin<Mesh>(s).Format())}); return last_new; }
  void MeshRead(int h, Rng& g) {
    Tracked t; jlong p = P(h); auto& m = Twin<Mesh>(h);
    Same(GEO(MeshNative_getVertexStride, p), m.VertexStride()); Same(GEO(MeshNative_getVertexCount, p), m.VertexCount()); Same(GEO(MeshNative_getTriangleCount, p), m.TriangleCount()); Same(GEO(MeshNative_getAttributeCount, p), m.Format().Attributes().size());
    jobject b = Box(); GEO(MeshNative_fillBounds, p, b); AddBox(b, m.Bounds());
    // the buffers are views of the mesh's own memory, which all copies share
    Bytes(GEO(MeshNative_createRawVertexBuffer, p), m.RawVertexData()); Bytes(GEO(MeshNative_createRawTriangleIndexBuffer, p), m.RawIndexData());
    for (size_t a = 0; a < m.Format().Attributes().size() && m.VertexCount(); ++a) {
      JObj *o = vm->New("[Float"), *s = vm->New("[Float"); { Untracked un; o->fa.assign(4, -7); s->fa.assign(4, -7); }
      int n = GEO(MeshNative_fillAttributeUnpackingParams, p, jint(a), (jfloatArray)o, (jfloatArray)s); auto cs = m.VertexAttributeUnpackingParams(uint32_t(a)).components.Values(); Same(n, cs.size());
      for (size_t i = 0; i < 4; ++i) { SameF(o->fa[i], i < cs.size() ? cs[i].offset : -7); SameF(s->fa[i], i < cs.size() ? cs[i].scale : -7); }
    }
    for (int k = 0; k < 3 && m.VertexCount(); ++k) { int v = g.Int(0, int(m.VertexCount()) - 1); jobject q = Vec2(); GEO(MeshNative_fillPosition, p, v, q); AddVec(q, m.VertexPosition(uint32_t(v))); }
    Untracked un; Look("mesh.read", h);
  }
  void FormatSame(int h, int k) {
    Tracked t; auto &a = Twin<MeshFormat>(h), &b = Twin<MeshFormat>(k);
    Same(GEO(MeshFormat_nativeIsPackedEquivalent, P(h), P(k)), MeshFormat::IsPackedEquivalent(a, b)); Same(GEO(MeshFormat_nativeIsUnpackedEquivalent, P(h), P(k)), MeshFormat::IsUnpackedEquivalent(a, b));
    Untracked un; Look("format.same", h);
  }
  // ---- strokes in progress: the peer is seen through its own queries
  struct WipSight { int all; };
  static int WipDig(const InProgressStroke& s) {
    Digest d; d.U(s.InputCount()).U(s.RealInputCount()).U(s.PredictedInputCount()).U(s.InputsAreFinished()).U(s.NeedsUpdate()).U(s.BrushCoatCount());
    for (uint32_t c = 0; c < s.BrushCoatCount(); ++c) { d.U(s.GetMesh(c).VertexCount()).U(s.GetCoatOutlines(c).size()); for (auto b : s.GetMesh(c).RawVertexData()) d.U(uint64_t(b)); }
    return d.Get();
  }
  static int WipSeen(jlong p) {
    Digest d; d.U(uint64_t(STR(InProgressStroke_nativeInputCount, p))).U(uint64_t(STR(InProgressStroke_nativeRealInputCount, p))).U(uint64_t(STR(InProgressStroke_nativePredictedInputCount, p)));
    int n = STR(InProgressStroke_nativeBrushCoatCount, p); d.U(STR(InProgressStroke_nativeIsInputFinished, p)).U(STR(InProgressStroke_nativeNeedsUpdate, p)).U(uint64_t(n));
    for (int c = 0; c < n; ++c) {
      d.U(uint64_t(STR(InProgressStroke_nativeGetVertexCount, p, c, 0))).U(uint64_t(STR(InProgressStroke_nativeGetOutlineCount, p, c)));
      if (jobject b = STR(InProgressStroke_nativeGetRawVertexData, p, c, 0)) { JObj* o = MockJava::X(b); for (long i = 0; i < o->cap; ++i) d.U(static_cast<unsigned char*>(o->buf)[i]); }
    }
    return d.Get();
  }
  int WipNew() {
    jlong p; { Tracked t; p = STR(InProgressStroke_nativeCreateInProgressStroke); } auto t = std::make_shared<InProgressStroke>();
    Log("wip.new", 0, absl::OkStatus(), nullptr, {Peer{"wip", p, t, [p] { return WipSeen(p); }, [t] { return WipDig(*t); }}}); return last_new;
  }
  void WipStart(int w, int brush) { { Tracked t; STR(InProgressStroke_nativeStart, P(w), P(brush)); } Twin<InProgressStroke>(w).Start(Twin<ink::Brush>(brush)); Log("wip.start", w, absl::OkStatus(), nullptr, {}, false, true); }
  void WipClear(int w) { { Tracked t; STR(InProgressStroke_nativeClear, P(w)); } Twin<InProgressStroke>(w).Clear(); Log("wip.clear", w, absl::OkStatus(), nullptr, {}, false, true); }
  void WipEnqueue(int w, int real, int pred) {
    jstring s; { Tracked t; s = STR(InProgressStroke_nativeEnqueueInputs, P(w), P(real), P(pred)); }
    auto st = Twin<InProgressStroke>(w).EnqueueInputs(Twin<StrokeInputBatch>(real), Twin<StrokeInputBatch>(pred)); Log("wip.enqueue", w, st, s, {}, false, st.ok());
  }
  void WipUpdate(int w, long ms) { jstring s; { Tracked t; s = STR(InProgressStroke_nativeUpdateShape, P(w), ms); } auto st = Twin<InProgressStroke>(w).UpdateShape(ink::Duration32::Millis(float(ms))); Log("wip.update", w, st, s, {}, false, st.ok()); }
  void WipFinish(int w) { { Tracked t; STR(InProgressStroke_nativeFinishInput, P(w)); } Twin<InProgressStroke>(w).FinishInputs(); Log("wip.finish", w, absl::OkStatus(), nullptr, {}, false, true); }
  void WipResetRegion(int w) { { Tracked t; STR(InProgressStroke_nativeResetUpdatedRegion, P(w)); } Twin<InProgressStroke>(w).ResetUpdatedRegion(); Log("wip.resetRegion", w, absl::OkStatus(), nullptr, {}, false, true); }
  int WipStroke(int w) { jlong p; { Tracked t; p = STR(InProgressStroke_nativeCopyToStroke, P(w)); } Log("wip.copyToStroke", w, absl::OkStatus(), nullptr, {MakePeer("stroke", p, Twin<InProgressStroke>(w).CopyToStroke())}); return last_new; }
  void WipFill(int w, int batch, int from, int to) {   // changes the batch
    { Tracked t; Same(STR(InProgressStroke_nativeFillInputs, P(w), P(batch), from, to), Twin<InProgressStroke>(w).InputCount()); }
    for (int i = from; i < to; ++i) if (!Twin<StrokeInputBatch>(batch).Append(Twin<InProgressStroke>(w).GetInputs().Get(size_t(i))).ok()) std::exit(3);
    Log("wip.fillInputs", batch, absl::OkStatus(), nullptr, {}, false, true);
  }
  int WipFormat(int w, int c) { jlong p; { Tracked t; p = STR(InProgressStroke_nativeAllocMeshFormatCopy, P(w), c, 0); } Log("wip.format", w, absl::OkStatus(), nullptr, {MakePeer("format", p, Twin<InProgressStroke>(w).GetMesh(uint32_t(c)).Format())}); return last_new; }
  // what 16-bit indices can say of a mesh with 32-bit ones: whole triangles up to the first that they cannot
  static std::vector<uint16_t> Narrow(const ink::MutableMesh& m) {
    std::vector<uint16_t> r; for (uint32_t t = 0; t < m.TriangleCount(); ++t) { auto i = m.TriangleIndices(t); if (i[0] > 65535 || i[1] > 65535 || i[2] > 65535) break; for (uint32_t x : i) r.push_back(uint16_t(x)); }
    return r;
  }
  void Indices(jobject b, const std::vector<uint16_t>& w) { Untracked un; if (!b || w.empty()) { Same(b ? MockJava::X(b)->cap : 0, 2 * w.size()); return; } Bytes(b, absl::MakeConstSpan(reinterpret_cast<const std::byte*>(w.data()), w.size() * 2)); }
  void WipRead(int w, Rng& g) {
    Tracked t; jlong p = P(w); auto& s = Twin<InProgressStroke>(w);
    Same(STR(InProgressStroke_nativeInputCount, p), s.InputCount()); Same(STR(InProgressStroke_nativeRealInputCount, p), s.RealInputCount()); Same(STR(InProgressStroke_nativePredictedInputCount, p), s.PredictedInputCount());
    Same(STR(InProgressStroke_nativeIsInputFinished, p), s.InputsAreFinished()); Same(STR(InProgressStroke_nativeNeedsUpdate, p), s.NeedsUpdate()); Same(STR(InProgressStroke_nativeBrushCoatCount, p), s.BrushCoatCount());
    { jobject b = Box(); STR(InProgressStroke_nativeFillUpdatedRegion, p, b); AddBox(b, s.GetUpdatedRegion()); }
    for (int k = 0; k < 2 && s.InputCount() > 0; ++k) { int i = g.Int(0, int(s.InputCount()) - 1); jobject j = JInput(); STR(InProgressStroke_nativeGetAndOverwriteInput, p, j, i, ToolClass()); AddInput(j, s.GetInputs().Get(size_t(i))); }
    std::vector<jobject> bufs;
    for (uint32_t c = 0; c < s.BrushCoatCount(); ++c) {
      int ci = int(c); auto& m = s.GetMesh(c);
      jobject b = Box(); STR(InProgressStroke_nativeGetMeshBounds, p, ci, b); AddBox(b, s.GetMeshBounds(c));
      auto os = s.GetCoatOutlines(c); Same(STR(InProgressStroke_nativeGetOutlineCount, p, ci), os.size());
      for (size_t o = 0; o < os.size() && o < 3; ++o) {
        Same(STR(InProgressStroke_nativeGetOutlineVertexCount, p, ci, jint(o)), os[o].size());
        for (int k = 0; k < 2 && !os[o].empty(); ++k) { int i = g.Int(0, int(os[o].size()) - 1); jobject q = Vec2(); STR(InProgressStroke_nativeFillOutlinePosition, p, ci, jint(o), i, q); AddVec(q, m.VertexPosition(os[o][size_t(i)])); }
      }
      Same(STR(InProgressStroke_nativeGetMeshPartitionCount, p, ci), 1); Same(STR(InProgressStroke_nativeGetVertexCount, p, ci, 0), m.VertexCount()); Same(STR(InProgressStroke_nativeGetTriangleIndexStride, p, 0), 2);
      Bytes(STR(InProgressStroke_nativeGetRawVertexData, p, ci, 0), m.RawVertexData());
    }
    // the buffers of indices of all coats are there at the same time
    for (uint32_t k = 0; k < s.BrushCoatCount(); ++k) bufs.push_back(STR(InProgressStroke_nativeGetRawTriangleIndexData, p, jint(k), 0));
    { Untracked un; for (uint32_t k = 0; k < s.BrushCoatCount(); ++k) Indices(bufs[k], Narrow(s.GetMesh(k))); }
    Untracked un; Look("wip.read", w);
  }
  // ---- brushes
  static ink::StrokeInput In(int t, float x, long ms) { return MkIn(t, x, 0, float(ms) / 1000); }
  int BehaviorNew() { jlong p; { Tracked t; p = BRU(BrushBehavior_nativeCreateEmptyBrushBehavior); } Log("behavior.new", 0, absl::OkStatus(), nullptr, {MakePeer("behavior", p, BrushBehavior{})}); return last_new; }
  void BehaviorAdd(int h, const Node& n) {
    jlong p = P(h); { Tracked t;
      if (auto* x = std::get_if<BrushBehavior::SourceNode>(&n)) BRU(BrushBehavior_00024SourceNode_nativeAppendSourceNode, p, int(x->source), x->source_value_range[0], x->source_value_range[1], int(x->source_out_of_range_behavior));
      else if (auto* x = std::get_if<BrushBehavior::ConstantNode>(&n)) BRU(BrushBehavior_00024ConstantNode_nativeAppendConstantNode, p, x->value);
      else if (auto* x = std::get_if<BrushBehavior::FallbackFilterNode>(&n)) BRU(BrushBehavior_00024FallbackFilterNode_nativeAppendFallbackFilterNode, p, int(x->is_fallback_for));
      else if (auto* x = std::get_if<BrushBehavior::ToolTypeFilterNode>(&n)) BRU(BrushBehavior_00024ToolTypeFilterNode_nativeAppendToolTypeFilterNode, p, x->enabled_tool_types.mouse, x->enabled_tool_types.touch, x->enabled_tool_types.stylus, x->enabled_tool_types.unknown);
      else if (auto* x = std::get_if<BrushBehavior::DampingNode>(&n)) BRU(BrushBehavior_00024DampingNode_nativeAppendDampingNode, p, int(x->damping_source), x->damping_gap);
      else if (auto* x = std::get_if<BrushBehavior::BinaryOpNode>(&n)) BRU(BrushBehavior_00024BinaryOpNode_nativeAppendBinaryOpNode, p, int(x->operation));
      else if (auto* x = std::get_if<BrushBehavior::InterpolationNode>(&n)) BRU(BrushBehavior_00024InterpolationNode_nativeAppendInterpolationNode, p, int(x->interpolation));
      else if (auto* x = std::get_if<BrushBehavior::TargetNode>(&n)) BRU(BrushBehavior_00024TargetNode_nativeAppendTargetNode, p, int(x->target), x->target_modifier_range[0], x->target_modifier_range[1]);
      else {
        auto& c = std::get<BrushBehavior::ResponseNode>(n).response_curve.parameters;
        if (auto* e = std::get_if<EP>(&c)) BRU(BrushBehavior_00024ResponseNode_nativeAppendResponseNodePredefined, p, int(*e));
        else if (auto* e = std::get_if<EasingFunction::CubicBezier>(&c)) BRU(BrushBehavior_00024ResponseNode_nativeAppendResponseNodeCubicBezier, p, e->x1, e->y1, e->x2, e->y2);
        else if (auto* e = std::get_if<EasingFunction::Steps>(&c)) BRU(BrushBehavior_00024ResponseNode_nativeAppendResponseNodeSteps, p, e->step_count, int(e->step_position));
        else { JObj* a; { Untracked u; a = vm->New("[Float"); for (auto& q : std::get<EasingFunction::Linear>(c).points) { a->fa.push_back(q.x); a->fa.push_back(q.y); } } BRU(BrushBehavior_00024ResponseNode_nativeAppendResponseNodeLinear, p, (jfloatArray)a);
               Untracked u; size_t i = 0; for (auto& q : std::get<EasingFunction::Linear>(c).points) { SameF(a->fa[i++], q.x); SameF(a->fa[i++], q.y); } }
      } }
    Twin<BrushBehavior>(h).nodes.push_back(n); Log("behavior.add", h, absl::OkStatus(), nullptr, {}, false, true);
  }
  bool BehaviorCheck(int h) {
    auto st = ink::brush_internal::ValidateBrushBehavior(Twin<BrushBehavior>(h)); jlong p = P(h), r; { Tracked t; r = BRU(BrushBehavior_nativeValidateOrDeleteAndThrow, p); }
    if (st.ok()) Same(r == p, true); Log("behavior.validate", h, st, nullptr, {}, !st.ok()); return st.ok();
  }
  int BehaviorOf(const BrushBehavior& b) { int h = BehaviorNew(); for (auto& n : b.nodes) BehaviorAdd(h, n); return BehaviorCheck(h) ? h : 0; }
  int TipNew(BrushTip t, int gap_ms) {
    t.particle_gap_duration = ink::Duration32::Millis(float(gap_ms)); auto bs = std::move(t.behaviors); t.behaviors.clear();
    auto st = ink::brush_internal::ValidateBrushTip(t); jlong p;
    { Tracked k; p = BRU(BrushTip_nativeCreateBrushTip, t.scale.x, t.scale.y, t.corner_rounding, t.slant.ValueInRadians(), t.pinch, t.rotation.ValueInRadians(), t.opacity_multiplier, t.particle_gap_distance_scale, gap_ms, int(bs.size())); }
    Log("tip.new", 0, st, nullptr, st.ok() ? std::vector<Peer>{MakePeer("tip", p, t)} : std::vector<Peer>{}); return last_new;
  }
  void TipAdd(int h, int b) { { Tracked t; BRU(BrushTip_nativeAppendBehavior, P(h), P(b)); } Twin<BrushTip>(h).behaviors.push_back(Twin<BrushBehavior>(b)); Log("tip.add", h, absl::OkStatus(), nullptr, {}, false, true); }
  int LayerNew(BrushPaint::TextureLayer y, const std::string& uri) {
    y.keyframes.clear(); y.size_jitter = {0, 0}; y.offset_jitter = {0, 0}; y.rotation_jitter = ink::Angle();
    auto u = ink::Uri::Parse(uri); absl::Status st = u.status(); if (u.ok()) { y.color_texture_uri = *u; st = ink::brush_internal::ValidateBrushPaintTextureLayer(y); }
    jstring s = (jstring)vm->String(uri); jlong p;
    { Tracked t; p = BRU(BrushPaint_00024TextureLayer_nativeCreateTextureLayer, s, y.size.x, y.size.y, y.offset.x, y.offset.y, y.rotation.ValueInRadians(), y.opacity, int(y.size_unit), int(y.origin), int(y.mapping), int(y.wrap_x), int(y.wrap_y), int(y.blend_mode)); }
    Log("layer.new", 0, st, nullptr, st.ok() ? std::vector<Peer>{MakePeer("layer", p, y)} : std::vector<Peer>{}); return last_new;
  }
  int PaintNew(int n) { jlong p; { Tracked t; p = BRU(BrushPaint_nativeCreateBrushPaint, n); } Log("paint.new", 0, absl::OkStatus(), nullptr, {MakePeer("paint", p, BrushPaint{})}); return last_new; }
  bool PaintAdd(int h, int y) {
    { Tracked t; BRU(BrushPaint_nativeAppendTextureLayer, P(h), P(y)); }
    auto& p = Twin<BrushPaint>(h); p.texture_layers.push_back(Twin<BrushPaint::TextureLayer>(y)); auto st = ink::brush_internal::ValidateBrushPaint(p);
    if (!st.ok()) p = *reinterpret_cast<BrushPaint*>(P(h));       // the paint is not used any more
    Log("paint.add", h, st, nullptr, {}, false, true); return st.ok();
  }
  int CoatNew(const std::vector<int>& tips, int paint) {
    std::vector<jlong> ps; BrushCoat c; for (int h : tips) { ps.push_back(P(h)); c.tips.push_back(Twin<BrushTip>(h)); } c.paint = Twin<BrushPaint>(paint);
    jobject a = Arr(ps); jlong p; { Tracked t; p = BRU(BrushCoat_nativeCreateBrushCoat, (jlongArray)a, P(paint)); } for (size_t i = 0; i < ps.size(); ++i) Same(MockJava::X(a)->la[i] == ps[i], true);
    Log("coat.new", 0, absl::OkStatus(), nullptr, {MakePeer("coat", p, c)}); return last_new;
  }
  int FamilyNew(const std::vector<int>& coats, const std::string& uri, bool v2) {
    std::vector<jlong> ps; std::vector<BrushCoat> cs; for (int h : coats) { ps.push_back(P(h)); cs.push_back(Twin<BrushCoat>(h)); }
    ink::BrushFamily::InputModel m = ink::BrushFamily::SpringModelV1{}; if (v2) m = ink::BrushFamily::SpringModelV2{};
    auto f = ink::BrushFamily::Create(cs, absl::string_view(uri), m); jobject a = Arr(ps); jstring s = (jstring)vm->String(uri); jlong p;
    { Tracked t; p = BRU(BrushFamily_nativeCreateBrushFamily, (jlongArray)a, s, v2); }
    Log("family.new", 0, f.status(), nullptr, f.ok() ? std::vector<Peer>{MakePeer("family", p, *f)} : std::vector<Peer>{}); return last_new;
  }
  int BrushNew(int family, std::array<float, 4> c, int space, float size, float eps) {
    auto b = ink::Brush::Create(Twin<ink::BrushFamily>(family), ink::Color::FromFloat(c[0], c[1], c[2], c[3], ink::Color::Format::kGammaEncoded, space ? ink::ColorSpace::kDisplayP3 : ink::ColorSpace::kSrgb), size, eps); jlong p;
    { Tracked t; p = BRU(Brush_nativeCreateBrush, P(family), c[0], c[1], c[2], c[3], space, size, eps); }
    Log("brush.new", 0, b.status(), nullptr, b.ok() ? std::vector<Peer>{MakePeer("brush", p, *b)} : std::vector<Peer>{}); return last_new;
  }
  // a brush like one of ours, through the native methods only
  int BrushLike(const ink::Brush& b) {
    std::vector<int> coats;
    for (auto& c : b.GetFamily().GetCoats()) {
      std::vector<int> tips; for (auto& t : c.tips) { int h = TipNew(t, int(t.particle_gap_duration.ToMillis())); if (!h) std::exit(3); for (auto& x : t.behaviors) { int y = BehaviorOf(x); if (!y) std::exit(3); TipAdd(h, y); Free(y); } tips.push_back(h); }
      int p = PaintNew(int(c.paint.texture_layers.size())); for (auto& y : c.paint.texture_layers) { int l = LayerNew(y, y.color_texture_uri.ToNormalizedString()); if (!l || !PaintAdd(p, l)) std::exit(3); Free(l); }
      coats.push_back(CoatNew(tips, p)); for (int h : tips) Free(h); Free(p);
    }
    int f = FamilyNew(coats, "", b.GetFamily().GetInputModel().index() != 0); for (int h : coats) Free(h); if (!f) std::exit(3);
    int r = BrushNew(f, {0.25f, 0.5f, 0.75f, 1}, 0, b.GetSize(), b.GetEpsilon()); Free(f); if (!r) std::exit(3); return r;
  }
};
static void Run() {
  Rng g(Seed()); World w;
  // ---- batches and strokes: the histories of the specification
  { w.Start(); int b = w.BrushLike(MakeBrush(1).brush); int x = w.BatchNew(); w.StrokeNew(b, x); w.FreeAll(g); }     // (first use of everything)
  int nth = 0, step = Scale(8, 1);
  for (auto& b : Behaviours()) {
    if ((nth++ + int(Seed())) % step) continue;
    w.Start(); int brush = 0, v[4] = {0, 0, 0, 0};
    auto n = [&](const std::vector<std::string>& o, size_t i) { return std::stoi(o[i]); };
    bool strokes = false; for (auto& o : b) strokes |= o[0] == "stroke"; if (strokes) brush = w.BrushLike(MakeBrush(1).brush);
    for (auto& o : b) {
      int s = n(o, 1);
      if (o[0] == "new") v[s] = w.BatchNew(); else if (o[0] == "add") w.BatchAppend(v[s], MkIn(1, float(n(o, 2)), 2, 0), 10 * n(o, 2)); else if (o[0] == "join") w.BatchJoin(v[s], v[n(o, 2)]); else if (o[0] == "clear") w.BatchClear(v[s]);
      else if (o[0] == "copy") v[s] = w.BatchCopy(v[n(o, 2)]); else if (o[0] == "stroke") v[s] = w.StrokeNew(brush, v[n(o, 2)]); else if (o[0] == "inputs") v[s] = w.StrokeInputs(v[n(o, 2)]); else if (o[0] == "free") { w.Free(v[s]); v[s] = 0; } else std::exit(3);
    }
    for (int h : w.Of("batch")) w.BatchRead(h);
    w.FreeAll(g);
  }
  // ---- batches: all sorts of inputs
  static const std::vector<float> odd = {NAN, INFINITY, -INFINITY, -1e-45f, 0, -0.0f, 1, 1.0000001f, 1.5707964f, 1.5707965f, 6.2831855f, 6.283186f, -1, -0.5f, 3.4e38f, 0.3f};
  for (int k = Scale(500, 8000); k > 0; --k) {
    w.Start(); int fmt = g.Int(0, 15), tool = g.Int(0, 3); long ms = g.Int(0, 50); std::vector<int> hs = {w.BatchNew()};
    for (int i = g.Int(2, 12); i > 0; --i) {
      int h = g.Pick(hs); ms += g.Int(0, 30);
      switch (g.Int(0, 9)) {
        case 0: hs.push_back(w.BatchNew()); break;
        case 1: hs.push_back(w.BatchCopy(h)); break;
        case 2: w.BatchJoin(h, g.Pick(hs)); break;
        case 3: if (hs.size() > 1) { std::erase(hs, h); w.Free(h); } break;
        case 4: w.BatchRead(h); break;
        default: {
          StrokeInput in = MkIn(tool, float(g.Int(-9, 9)) * 0.37f, float(g.Int(-9, 9)) * 1.3f, 0, fmt & 1 ? 0.25f : 0, fmt & 2 ? g.Unit() : -1, fmt & 4 ? 1.5f * g.Unit() : -1, fmt & 8 ? 6 * g.Unit() : -1);
          long at = ms;
          if (g.Chance(1, 5)) switch (g.Int(0, 6)) { case 0: in.position.x = g.Pick(odd); break; case 1: in.position.y = g.Pick(odd); break; case 2: in.stroke_unit_length = ink::PhysicalDistance::Centimeters(g.Pick(odd)); break; case 3: in.pressure = g.Pick(odd); break;
            case 4: in.tilt = ink::Angle::Radians(g.Pick(odd)); break; case 5: in.orientation = ink::Angle::Radians(g.Pick(odd)); break; default: at = g.Chance(1, 2) ? -5 : g.Chance(1, 2) ? 100000000L + ms : ms - 20; }
          w.BatchAppend(h, in, at);
        }
      }
    }
    for (int h : w.Of("batch")) w.BatchRead(h);
    w.FreeAll(g);
  }
  // ---- a StrokeInput that Java made
  for (int k = Scale(200, 3000); k > 0; --k) {
    w.Start(); StrokeInput in = MkIn(g.Int(0, 3), g.Chance(1, 6) ? g.Pick(odd) : g.Unit(), g.Unit() * 100, 0, g.Unit(), g.Unit(), g.Unit() * 2, g.Unit() * 3); int ms = g.Int(0, 100000); in.elapsed_time = ink::Duration32::Millis(float(ms));
    JObj* o = MockJava::X(w.JInput()); JObj* tool = vm->New(PKG "/brush/InputToolType"); tool->f["value"] = {double(int(in.tool_type))}; o->oa = {tool};
    o->f["getX"] = {in.position.x}; o->f["getY"] = {in.position.y}; o->f["getElapsedTimeMillis"] = {double(ms)}; o->f["getStrokeUnitLengthCm"] = {in.stroke_unit_length.ToCentimeters()}; o->f["getPressure"] = {in.pressure}; o->f["getTiltRadians"] = {in.tilt.ValueInRadians()}; o->f["getOrientationRadians"] = {in.orientation.ValueInRadians()};
    StrokeInput r; { Tracked tt; r = ink::JObjectToStrokeInput(env, MockJava::O(o)); }
    for (int x : EncIn(r)) w.got.push_back(x); for (int x : EncIn(in)) w.want.push_back(x); w.Look("value", 0);
    jobject back = w.JInput(); { Tracked tt; ink::UpdateJObjectInput(env, in, back, w.ToolClass()); } w.AddInput(back, in); w.Look("value", 0);
    w.FreeAll(g);
  }
  // ---- brush components
  Parts p(g);
  const std::vector<int> wilds = {0, 0, 30, 120, 300};
  for (int k = Scale(700, 10000); k > 0; --k) {
    w.Start(); p.wild = g.Pick(wilds);
    std::vector<int> bs, tips, paints, coats;
    for (int i = g.Int(0, 3); i > 0; --i) if (int h = w.BehaviorOf(p.Behavior())) bs.push_back(h);
    for (int i = g.Int(1, 2); i > 0; --i) if (int h = w.TipNew(p.Tip(1), g.Int(0, 90))) { tips.push_back(h); for (int b : bs) if (g.Chance(1, 2)) w.TipAdd(h, b); }
    int y = w.PaintNew(g.Int(0, 3)); bool fine = true;
    for (int i = g.Int(0, 2); fine && i > 0; --i) { auto l = p.Layer(); static const char* uris[] = {"/texture:a", "/texture:b-c", "ink://x/texture:y:3", "", "no uri", "/brush-family:a"}; if (int h = w.LayerNew(l, uris[p.Wild() ? g.Int(3, 5) : g.Int(0, 2)])) { fine = w.PaintAdd(y, h); if (g.Chance(1, 2)) w.Free(h); } }
    if (fine && !tips.empty()) {
      p.wild *= 2;
      for (int i = g.Int(0, 3); i > 0; --i) { std::vector<int> ts; for (int n = p.Wild() ? g.Int(0, 2) : 1; n > 0; --n) ts.push_back(g.Pick(tips)); coats.push_back(w.CoatNew(ts, y)); }
      if (g.Chance(1, 2)) for (int h : tips) w.Free(h);            // what was built keeps its value
      if (g.Chance(1, 2)) w.Free(y);
      static const char* uris[] = {"", "/brush-family:a", "ink://x/brush-family:q:7", "/texture:b", "bad uri"};
      if (int f = w.FamilyNew(coats, uris[g.Int(0, p.Wild() ? 4 : 2)], g.Chance(1, 2))) {
        if (g.Chance(1, 2)) for (int h : coats) w.Free(h);
        float size = p.Wild() ? g.Pick(odd) : 0.5f + 20 * g.Unit(), eps = p.Wild() ? g.Pick(odd) : 0.01f + g.Unit() / 4;
        std::array<float, 4> c; for (auto& x : c) x = g.Unit();
        int b = w.BrushNew(f, c, g.Int(0, 1), size, eps); if (b && g.Chance(1, 2)) w.Free(f);
      }
    }
    w.FreeAll(g);
  }
  // ---- strokes, finished and in progress, and the meshes they are made of
  for (int k = Scale(60, 700); k > 0; --k) {
    w.Start(); auto info = MakeBrush(g.Int(1, kBrushCount)); int brush = w.BrushLike(info.brush), wip = w.WipNew(); Pen pen(g, info.brush.GetSize() * 0.6f); long ms = 0;
    w.WipRead(wip, g);
    auto feed = [&](int n, bool bad) { int h = w.BatchNew(); for (int i = 0; i < n; ++i) { StrokeInput in = pen.Next(); ms += g.Int(1, 12); if (bad && i == n - 1) in.tool_type = StrokeInput::ToolType((int(in.tool_type) + 1) % 4); w.BatchAppend(h, in, ms); } return h; };
    if (g.Chance(1, 4)) { int e = w.BatchNew(); w.WipEnqueue(wip, e, e); w.WipUpdate(wip, 0); w.Free(e); }      // not started
    for (int round = g.Int(1, 2); round > 0; --round) {
      w.WipStart(wip, brush); if (g.Chance(1, 3)) w.WipRead(wip, g); ms = 0;
      for (int i = g.Int(1, 5); i > 0; --i) {
        int real = feed(g.Int(0, 5), g.Chance(1, 12)); long keep = ms; int pred = feed(g.Chance(1, 2) ? 0 : g.Int(1, 3), false); ms = keep;
        w.WipEnqueue(wip, real, pred); if (g.Chance(1, 2)) w.BatchClear(real); w.Free(real); w.Free(pred);
        w.WipUpdate(wip, g.Chance(1, 10) ? -3 : ms + g.Int(0, 40)); w.WipRead(wip, g);
        if (g.Chance(1, 3)) w.WipResetRegion(wip);
        if (g.Chance(1, 4)) { int st = w.WipStroke(wip); if (g.Chance(1, 2)) { w.StrokeShape(st); w.Free(st); } }
        if (g.Chance(1, 3)) { int b = w.BatchNew(); int n = int(w.Twin<InProgressStroke>(wip).InputCount()), a = g.Int(0, n); w.WipFill(wip, b, a, g.Int(a, n)); w.BatchRead(b); w.Free(b); }
      }
      if (g.Chance(2, 3)) { w.WipFinish(wip); int e = w.BatchNew(); w.WipEnqueue(wip, e, e); w.Free(e); w.WipUpdate(wip, ms + 500); w.WipRead(wip, g); }
      if (g.Chance(1, 4)) w.WipClear(wip);
    }
    if (w.Twin<InProgressStroke>(wip).BrushCoatCount()) { int f = w.WipFormat(wip, 0); (void)f; }
    if (!w.Twin<InProgressStroke>(wip).GetBrush()) { w.WipRead(wip, g); w.FreeAll(g); continue; }      // cleared: nothing to make a stroke of
    int s = w.WipStroke(wip); if (g.Chance(1, 3)) w.Free(wip);
    int in = w.StrokeInputs(s), sh = w.StrokeShape(s), s2 = w.StrokeNew(brush, in), s3 = w.StrokeShaped(brush, in, sh); (void)s3; if (g.Chance(1, 2)) w.Free(s);
    int sh2 = w.StrokeShape(s2); w.ShapeRead(sh); if (g.Chance(1, 2)) w.ShapeIndex(sh); w.ShapeRead(sh); w.ShapeRead(sh2);
    for (uint32_t gr = 0; gr < w.Twin<PartitionedMesh>(sh2).RenderGroupCount(); ++gr) { auto ms2 = w.ShapeMeshes(sh2, int(gr)); w.ShapeFormat(sh2, int(gr)); for (int m : ms2) { w.MeshRead(m, g); w.MeshFormatCopy(m); } }
    if (g.Chance(1, 3)) { int m = w.MeshNew(); w.MeshRead(m, g); w.MeshFormatCopy(m); }
    if (g.Chance(1, 3)) { int e = w.ShapeNew(); w.ShapeRead(e); }
    auto fs = w.Of("format"); for (size_t i = 0; i + 1 < fs.size(); ++i) w.FormatSame(fs[i], g.Pick(fs));
    if (g.Chance(1, 2)) { w.Free(sh2); for (int m : w.Of("mesh")) w.MeshRead(m, g); }      // meshes outlive the shape they came from
    w.FreeAll(g);
  }
  // ---- more vertices than 16 bits can tell apart
  {
    w.Start(); ink::BrushTip tip; tip.particle_gap_distance_scale = 0.05f; auto fam = ink::BrushFamily::Create(tip, BrushPaint{}); auto br = ink::Brush::Create(*fam, ink::Color::Blue(), 10, 0.01f); int brush = w.BrushLike(*br), wip = w.WipNew(); w.WipStart(wip, brush);
    int e = w.BatchNew(); float x = 0; long ms = 0;
    auto& twin = w.Twin<InProgressStroke>(wip);
    for (int n = 0; n < 4000 && twin.GetMesh(0).VertexCount() < 66000; ++n) {       // one event for all of it, at the end
      auto b = *StrokeInputBatch::Create({MkIn(1, x += 1, 0, float(ms += 8) / 1000)}); Tracked tt;
      if (STR(InProgressStroke_nativeEnqueueInputs, w.P(wip), jlong(&b), w.P(e)) || STR(InProgressStroke_nativeUpdateShape, w.P(wip), ms)) std::exit(3);
      Untracked un; if (!twin.EnqueueInputs(b, {}).ok() || !twin.UpdateShape(ink::Duration32::Millis(float(ms))).ok()) std::exit(3);
    }
    if (twin.GetMesh(0).VertexCount() < 66000) std::exit(3);
    w.Log("wip.update", wip, absl::OkStatus(), nullptr, {}, false, true);
    w.WipRead(wip, g); w.FreeAll(g);
  }
}
int main() {
  Trace t; tr = &t; MockJava java; vm = &java; env = &java.env;
  quiet = true; Run();          // whatever native code keeps for good (caches, grown buffers) is there now
  quiet = false; Run();
}
