// A stand-in for the VM with the Java classes that the native methods of ink use: objects with fields, arrays, strings, exceptions.
// Everything a native method does to them is checked against the JNI rules; heap blocks allocated by native code are tracked.
#ifndef VERIF_DRIVERS_MOCK_JAVA_H_
#define VERIF_DRIVERS_MOCK_JAVA_H_
#include <jni.h>
#include <cstdarg>
#include <deque>
#include <map>
#include <new>
#include <set>
#include "common.h"
namespace verif {
// ---- heap blocks of native code
struct Heap {
  static inline bool on = false;
  static inline uint64_t epoch = 1;
  static inline long live = 0;
  static void* New(size_t n) { auto* h = static_cast<uint64_t*>(std::malloc(n + 16)); if (!h) throw std::bad_alloc(); h[0] = on ? epoch : 0; live += on; return h + 2; }
  static void Del(void* p) { if (!p) return; auto* h = static_cast<uint64_t*>(p) - 2; if (h[0] == epoch) --live; std::free(h); }
  static void Forget() { ++epoch; live = 0; }
};
struct Untracked { bool was = Heap::on; Untracked() { Heap::on = false; } ~Untracked() { Heap::on = was; } };
struct Tracked { bool was = Heap::on; Tracked() { Heap::on = true; } ~Tracked() { Heap::on = was; } };

struct JObj {
  std::string cls, text;                       // text: of a string, name of a class, message of a throwable
  std::map<std::string, std::vector<double>> f; // what was last set, by method
  std::vector<std::string> calls;
  std::vector<jfloat> fa; std::vector<jint> ia; std::vector<jlong> la; std::vector<JObj*> oa;
  void* buf = nullptr; long cap = 0;
};
struct JMethod { std::string cls, name, sig; bool is_static; };
#define PKG "androidx/ink"
#define G_ PKG "/geometry/"
struct MockJava {
  JNINativeInterface_ table; JNIEnv env;
  std::deque<JObj> heap, lasting; std::map<std::string, JObj*> classes; std::deque<JMethod> methods;
  std::map<void*, std::pair<JObj*, int>> held;   // array elements and string characters not yet released
  JObj* pending = nullptr;
  std::vector<std::string> misuse;
  static MockJava*& I() { static MockJava* v; return v; }
  static void Bad(const std::string& w) { Untracked u; I()->misuse.push_back(w); }
  static JObj* X(const void* o) { return reinterpret_cast<JObj*>(const_cast<void*>(o)); }
  static jobject O(JObj* o) { return reinterpret_cast<jobject>(o); }
  JObj* New(const std::string& cls) { Untracked u; heap.emplace_back(); heap.back().cls = cls; return &heap.back(); }
  JObj* Class(const std::string& n) { Untracked u; JObj*& c = classes[n]; if (!c) { lasting.emplace_back(); c = &lasting.back(); c->cls = "java/lang/Class"; c->text = n; } return c; }
  JObj* String(const std::string& s) { JObj* o = New("java/lang/String"); Untracked u; o->text = s; return o; }
  void Clear() { Untracked u; heap.clear(); pending = nullptr; held.clear(); misuse.clear(); }
  // ---- rules
  static void In(const char* f) { if (I()->pending) Bad(std::string(f) + " while an exception is pending"); }
  static std::vector<JMethod>& Known() {
    static std::vector<JMethod> k = {
      {G_ "ImmutableVec", "<init>", "(FF)V", false}, {G_ "MutableVec", "setX", "(F)V", false}, {G_ "MutableVec", "setY", "(F)V", false}, {G_ "MutableVec", "getX", "()F", false}, {G_ "MutableVec", "getY", "()F", false},
      {G_ "ImmutableBox", "fromTwoPoints", "(L" G_ "Vec;L" G_ "Vec;)L" G_ "ImmutableBox;", true},
      {G_ "MutableBox", "setXBounds", "(FF)L" G_ "MutableBox;", false}, {G_ "MutableBox", "setYBounds", "(FF)L" G_ "MutableBox;", false},
      {G_ "BoxAccumulator", "reset", "()L" G_ "BoxAccumulator;", false}, {G_ "BoxAccumulator", "overwriteFrom", "(FFFF)L" G_ "BoxAccumulator;", false},
      {G_ "ImmutableParallelogram", "fromCenterDimensionsRotationAndShear", "(L" G_ "ImmutableVec;FFFF)L" G_ "ImmutableParallelogram;", true},
      {G_ "MutableParallelogram", "setCenterDimensionsRotationAndShear", "(FFFFFF)V", false},
      {PKG "/brush/InputToolType", "from", "(I)L" PKG "/brush/InputToolType;", true}, {PKG "/brush/InputToolType", "value", "I", false},
      {PKG "/strokes/StrokeInput", "update", "(FFJL" PKG "/brush/InputToolType;FFFF)V", false}, {PKG "/strokes/StrokeInput", "getToolType", "()L" PKG "/brush/InputToolType;", false},
      {PKG "/strokes/StrokeInput", "getX", "()F", false}, {PKG "/strokes/StrokeInput", "getY", "()F", false}, {PKG "/strokes/StrokeInput", "getElapsedTimeMillis", "()J", false},
      {PKG "/strokes/StrokeInput", "getStrokeUnitLengthCm", "()F", false}, {PKG "/strokes/StrokeInput", "getPressure", "()F", false}, {PKG "/strokes/StrokeInput", "getTiltRadians", "()F", false}, {PKG "/strokes/StrokeInput", "getOrientationRadians", "()F", false}};
    return k;
  }
  static JMethod* Find(const void* cls, const char* n, const char* sig, bool st) {
    Untracked u; for (auto& m : Known()) if (m.cls == X(cls)->text && m.name == n && m.sig == sig && m.is_static == st) return &m;
    Bad("no method " + X(cls)->text + "." + n + sig); return nullptr;
  }
  struct Args { std::vector<double> num; std::vector<JObj*> obj; };
  static Args Parse(const JMethod& m, va_list* v, const jvalue* a) {
    Args r; size_t i = 1; int k = 0;
    while (m.sig[i] != ')') {
      switch (m.sig[i]) {
        case 'F': r.num.push_back(a ? double(a[k].f) : va_arg(*v, double)); break;
        case 'J': r.num.push_back(double(a ? a[k].j : va_arg(*v, jlong))); break;
        case 'I': r.num.push_back(double(a ? a[k].i : va_arg(*v, jint))); break;
        case 'L': r.obj.push_back(X(a ? a[k].l : va_arg(*v, jobject))); i = m.sig.find(';', i); break;
        default: std::exit(3);
      }
      ++i; ++k;
    }
    return r;
  }
  struct Val { JObj* o = nullptr; double d = 0; };
  static Val Do(const char* f, const void* target, const void* mid, va_list* v, const jvalue* a) {
    Untracked u; In(f); Val r; const JMethod* m = static_cast<const JMethod*>(mid);
    if (!target || !m) { Bad(std::string(f) + " with null"); return r; }
    JObj* t = X(target); Args x = Parse(*m, v, a);
    for (auto* o : x.obj) if (!o) Bad(m->name + " with a null argument");
    char ret = m->sig[m->sig.find(')') + 1]; bool init = m->name == "<init>"; char kind = f[4] == 'V' ? 'V' : f[4] == 'O' ? 'L' : f[4] == 'F' ? 'F' : f[4] == 'L' ? 'J' : f[4] == 'S' ? 'L' : 'V';
    if (!init && ret != kind) Bad(std::string(f) + " on a method returning " + ret);
    if (init || m->is_static) {
      if (t->cls != "java/lang/Class" || t->text != m->cls) { Bad(m->name + " on another class"); return r; }
      r.o = I()->New(m->cls); r.o->calls.push_back(m->name); auto& w = r.o->f[m->name]; w = x.num;
      if (m->name == "from") r.o->f["value"] = x.num;
      for (size_t i = x.obj.size(); i-- > 0;) { auto it = x.obj[i]->f.find("<init>"); if (it == x.obj[i]->f.end()) { Bad(m->name + " with an object not constructed"); continue; } w.insert(w.begin(), it->second.begin(), it->second.end()); }
      return r;
    }
    if (t->cls != m->cls) { Bad(m->name + " on a " + t->cls); return r; }
    if (m->sig[1] == ')' && ret != 'V' && m->name != "reset") {      // a getter
      if (m->name == "getToolType") { r.o = t->oa.empty() ? nullptr : t->oa[0]; return r; }
      auto& w = t->f[m->name]; if (w.size() == 1) r.d = w[0]; return r;
    }
    t->calls.push_back(m->name); t->f[m->name] = x.num; t->oa = x.obj; r.o = t; return r;
  }
  // ---- the function table
#define CALLS(T, R, FIELD) \
  static R JNICALL Call##T##Method(JNIEnv*, jobject o, jmethodID m, ...) { va_list v; va_start(v, m); Val r = Do("Call" #T "Method", o, m, &v, nullptr); va_end(v); return R(FIELD); } \
  static R JNICALL Call##T##MethodV(JNIEnv*, jobject o, jmethodID m, va_list w) { va_list v; va_copy(v, w); Val r = Do("Call" #T "MethodV", o, m, &v, nullptr); va_end(v); return R(FIELD); } \
  static R JNICALL Call##T##MethodA(JNIEnv*, jobject o, jmethodID m, const jvalue* a) { Val r = Do("Call" #T "MethodA", o, m, nullptr, a); return R(FIELD); }
  CALLS(Void, void, r.o) CALLS(Object, jobject, r.o) CALLS(Float, jfloat, r.d) CALLS(Long, jlong, r.d)
#undef CALLS
#define MAKES(F) \
  static jobject JNICALL F(JNIEnv*, jclass o, jmethodID m, ...) { va_list v; va_start(v, m); Val r = Do("CallStatic", o, m, &v, nullptr); va_end(v); return O(r.o); } \
  static jobject JNICALL F##V(JNIEnv*, jclass o, jmethodID m, va_list w) { va_list v; va_copy(v, w); Val r = Do("CallStatic", o, m, &v, nullptr); va_end(v); return O(r.o); } \
  static jobject JNICALL F##A(JNIEnv*, jclass o, jmethodID m, const jvalue* a) { Val r = Do("CallStatic", o, m, nullptr, a); return O(r.o); }
  MAKES(NewObject) MAKES(CallStaticObjectMethod)
#undef MAKES
  static jclass JNICALL GetObjectClass(JNIEnv*, jobject o) { Untracked u; In("GetObjectClass"); if (!o) { Bad("GetObjectClass of null"); return nullptr; } return (jclass)I()->Class(X(o)->cls); }
  static jclass JNICALL FindClass(JNIEnv*, const char* n) { Untracked u; In("FindClass"); return (jclass)I()->Class(n); }
  static jmethodID JNICALL GetMethodID(JNIEnv*, jclass c, const char* n, const char* s) { In("GetMethodID"); return (jmethodID)Find(c, n, s, false); }
  static jmethodID JNICALL GetStaticMethodID(JNIEnv*, jclass c, const char* n, const char* s) { In("GetStaticMethodID"); return (jmethodID)Find(c, n, s, true); }
  static jfieldID JNICALL GetFieldID(JNIEnv*, jclass c, const char* n, const char* s) { In("GetFieldID"); return (jfieldID)Find(c, n, s, false); }
  static jint JNICALL GetIntField(JNIEnv*, jobject o, jfieldID f) { Untracked u; In("GetIntField"); auto& w = X(o)->f[reinterpret_cast<JMethod*>(f)->name]; return w.empty() ? 0 : jint(w[0]); }
  static jobject JNICALL NewRef(JNIEnv*, jobject o) { return o; }
  static void JNICALL DropRef(JNIEnv*, jobject) {}
  static jboolean JNICALL IsSameObject(JNIEnv*, jobject a, jobject b) { return a == b; }
  static jboolean JNICALL IsInstanceOf(JNIEnv*, jobject a, jclass c) { return !a || X(a)->cls == X(c)->text; }
  static jint JNICALL Ok1(JNIEnv*, jint) { return 0; }
  static jobject JNICALL PopLocalFrame(JNIEnv*, jobject o) { return o; }
  static jstring JNICALL NewStringUTF(JNIEnv*, const char* s) { In("NewStringUTF"); return (jstring)I()->String(s ? s : ""); }
  template <typename T> static T* Hold(JObj* o, const T* p, size_t n, jboolean* copy) {
    Untracked u; T* r = static_cast<T*>(std::malloc(n * sizeof(T) + sizeof(T))); if (n) std::memcpy(r, p, n * sizeof(T)); r[n] = T(0); if (copy) *copy = JNI_TRUE; I()->held[r] = {o, int(n)}; return r;
  }
  template <typename T> static void Drop(const char* f, JObj* o, T* p, T* into, jint mode) {
    Untracked u; auto it = I()->held.find((void*)p); if (it == I()->held.end() || it->second.first != o) { Bad(std::string(f) + " of what was not taken from it"); return; }
    size_t n = size_t(it->second.second); if (into && mode != JNI_ABORT && n) std::memcpy(into, p, n * sizeof(T));
    if (mode != JNI_COMMIT) { std::memset((void*)p, 0x5a, n * sizeof(T)); std::free((void*)p); I()->held.erase(it); }
  }
  static const char* JNICALL GetStringUTFChars(JNIEnv*, jstring s, jboolean* c) { In("GetStringUTFChars"); if (!s) { Bad("GetStringUTFChars of null"); return nullptr; } return Hold<char>(X(s), X(s)->text.data(), X(s)->text.size(), c); }
  static void JNICALL ReleaseStringUTFChars(JNIEnv*, jstring s, const char* p) { Drop<char>("ReleaseStringUTFChars", X(s), const_cast<char*>(p), nullptr, 0); }
  static jsize JNICALL GetStringUTFLength(JNIEnv*, jstring s) { In("GetStringUTFLength"); return jsize(X(s)->text.size()); }
  static jsize JNICALL GetStringLength(JNIEnv*, jstring s) { In("GetStringLength"); jsize n = 0; for (unsigned char c : X(s)->text) n += (c & 0xC0) != 0x80; return n; }
  static void JNICALL GetStringUTFRegion(JNIEnv*, jstring s, jsize start, jsize len, char* out) { In("GetStringUTFRegion"); std::memcpy(out, X(s)->text.data() + start, size_t(len)); out[len] = 0; }  // ASCII texts only
  static jsize JNICALL GetArrayLength(JNIEnv*, jarray a) { In("GetArrayLength"); JObj* o = X(a); return jsize(o->fa.size() + o->ia.size() + o->la.size() + o->oa.size()); }
#define ARRAYS(T, t, m) \
  static t* JNICALL Get##T##ArrayElements(JNIEnv*, t##Array a, jboolean* c) { In("Get" #T "ArrayElements"); return Hold<t>(X(a), X(a)->m.data(), X(a)->m.size(), c); } \
  static void JNICALL Release##T##ArrayElements(JNIEnv*, t##Array a, t* p, jint mode) { Drop<t>("Release" #T "ArrayElements", X(a), p, X(a)->m.data(), mode); } \
  static bool Fit##T(t##Array a, jsize i, jsize n) { bool ok = i >= 0 && n >= 0 && size_t(i) + size_t(n) <= X(a)->m.size(); if (!ok) Bad(#T " array region outside of the array"); return ok; } \
  static void JNICALL Set##T##ArrayRegion(JNIEnv*, t##Array a, jsize i, jsize n, const t* p) { In("Set" #T "ArrayRegion"); if (Fit##T(a, i, n)) std::copy(p, p + n, X(a)->m.begin() + i); } \
  static void JNICALL Get##T##ArrayRegion(JNIEnv*, t##Array a, jsize i, jsize n, t* p) { In("Get" #T "ArrayRegion"); if (Fit##T(a, i, n)) std::copy(X(a)->m.begin() + i, X(a)->m.begin() + i + n, p); } \
  static t##Array JNICALL New##T##Array(JNIEnv*, jsize n) { In("New" #T "Array"); Untracked u; JObj* o = I()->New("[" #T); o->m.resize(size_t(n)); return (t##Array)o; }
  ARRAYS(Float, jfloat, fa) ARRAYS(Int, jint, ia) ARRAYS(Long, jlong, la)
#undef ARRAYS
  static void* JNICALL GetPrimitiveArrayCritical(JNIEnv* e, jarray a, jboolean* c) { JObj* o = X(a); if (!o->la.empty()) return GetLongArrayElements(e, (jlongArray)a, c); if (!o->ia.empty()) return GetIntArrayElements(e, (jintArray)a, c); return GetFloatArrayElements(e, (jfloatArray)a, c); }
  static void JNICALL ReleasePrimitiveArrayCritical(JNIEnv* e, jarray a, void* p, jint m) { JObj* o = X(a); if (!o->la.empty()) return ReleaseLongArrayElements(e, (jlongArray)a, (jlong*)p, m); if (!o->ia.empty()) return ReleaseIntArrayElements(e, (jintArray)a, (jint*)p, m); ReleaseFloatArrayElements(e, (jfloatArray)a, (jfloat*)p, m); }
  static jobjectArray JNICALL NewObjectArray(JNIEnv*, jsize n, jclass, jobject init) { In("NewObjectArray"); Untracked u; JObj* o = I()->New("[Object"); o->oa.assign(size_t(n), X(init)); return (jobjectArray)o; }
  static void JNICALL SetObjectArrayElement(JNIEnv*, jobjectArray a, jsize i, jobject v) { In("SetObjectArrayElement"); if (i < 0 || size_t(i) >= X(a)->oa.size()) { Bad("object array index"); return; } X(a)->oa[size_t(i)] = X(v); }
  static jobject JNICALL GetObjectArrayElement(JNIEnv*, jobjectArray a, jsize i) { In("GetObjectArrayElement"); if (i < 0 || size_t(i) >= X(a)->oa.size()) { Bad("object array index"); return nullptr; } return O(X(a)->oa[size_t(i)]); }
  static jobject JNICALL NewDirectByteBuffer(JNIEnv*, void* p, jlong n) { In("NewDirectByteBuffer"); Untracked u; if (!p || n < 0) Bad("NewDirectByteBuffer without memory"); JObj* o = I()->New("java/nio/DirectByteBuffer"); o->buf = p; o->cap = long(n); return O(o); }
  static jboolean JNICALL ExceptionCheck(JNIEnv*) { return I()->pending != nullptr; }
  static jthrowable JNICALL ExceptionOccurred(JNIEnv*) { return (jthrowable)I()->pending; }
  static void JNICALL ExceptionClear(JNIEnv*) { I()->pending = nullptr; }
  static jint JNICALL ThrowNew(JNIEnv*, jclass c, const char* m) { In("ThrowNew"); Untracked u; JObj* o = I()->New(X(c)->text); o->text = m ? m : ""; I()->pending = o; return 0; }
  static jint JNICALL Throw(JNIEnv*, jthrowable t) { In("Throw"); I()->pending = X(t); return 0; }
  MockJava() {
    I() = this; std::memset(&table, 0, sizeof table); env.functions = &table;
#define T(x) table.x = x;
#define T3(x) T(x) table.x##V = x##V; table.x##A = x##A;
    T3(CallVoidMethod) T3(CallObjectMethod) T3(CallFloatMethod) T3(CallLongMethod) T3(NewObject) T3(CallStaticObjectMethod)
    T(GetObjectClass) T(FindClass) T(GetMethodID) T(GetStaticMethodID) T(GetFieldID) T(GetIntField) T(IsSameObject) T(IsInstanceOf) T(PopLocalFrame)
    table.NewGlobalRef = NewRef; table.NewLocalRef = NewRef; table.DeleteGlobalRef = DropRef; table.DeleteLocalRef = DropRef; table.PushLocalFrame = Ok1; table.EnsureLocalCapacity = Ok1;
    T(NewStringUTF) T(GetStringUTFChars) T(ReleaseStringUTFChars) T(GetStringUTFLength) T(GetStringLength) T(GetStringUTFRegion) T(GetArrayLength)
#define TA(x) T(Get##x##ArrayElements) T(Release##x##ArrayElements) T(Set##x##ArrayRegion) T(Get##x##ArrayRegion) T(New##x##Array)
    TA(Float) TA(Int) TA(Long) T(GetPrimitiveArrayCritical) T(ReleasePrimitiveArrayCritical) T(NewObjectArray) T(SetObjectArrayElement) T(GetObjectArrayElement) T(NewDirectByteBuffer)
    T(ExceptionCheck) T(ExceptionOccurred) T(ExceptionClear) T(ThrowNew) T(Throw)
#undef TA
#undef T3
#undef T
  }
};
}  // namespace verif
// Tracked allocation, for the one translation unit that includes this.
void* operator new(size_t n) { return verif::Heap::New(n); }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { verif::Heap::Del(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
#endif
