// A recording stand-in for the VM: just enough of the JNI function table, with fresh handles and buffers for every call.
#ifndef VERIF_DRIVERS_MOCK_JVM_H_
#define VERIF_DRIVERS_MOCK_JVM_H_
#include <jni.h>
#include <cstdarg>
#include <map>
#include <set>
#include "common.h"
namespace verif {
struct MockVm {
  Trace* t;
  JNINativeInterface_ table; JNIEnv env;
  int next_ref = 1, next_obj = 100, next_buf = 1;
  std::map<long, int> refs;                       // handle -> object
  std::map<int, std::string> strings;             // string object -> modified UTF-8
  std::map<int, std::string> classes;             // class object -> name; throwable object -> class name
  std::map<int, std::string> throwables; std::map<int, int> messages;   // throwable -> string object (0: null)
  std::map<const char*, std::pair<int, char*>> bufs;   // live buffers
  std::map<std::string, int> class_objs;
  int pending = 0;
  std::map<std::string, std::string> super;
  static MockVm*& I() { static MockVm* v; return v; }
  static void Fail(const std::string& w) { (*I()->t)(J("misuse").S("what", w)); }
  static long H(jobject o) { return long(reinterpret_cast<intptr_t>(o)); }
  static jobject O(long r) { return reinterpret_cast<jobject>(intptr_t(r)); }
  int Obj(jobject o) { auto it = refs.find(H(o)); return it == refs.end() ? 0 : it->second; }
  long NewRef(int obj) { long r = next_ref++ * 16; refs[r] = obj; return r; }
  // what Java code hands to native code
  jobject Give(int obj) { if (!obj) return nullptr; long r = NewRef(obj); (*t)(J("given").I("r", r).I("o", obj)); return O(r); }
  int NewString(const std::string& s) { int o = next_obj++; strings[o] = s; return o; }
  int NewThrowable(const std::string& cls, int msg) { int o = next_obj++; throwables[o] = cls; messages[o] = msg; return o; }
  void Raise(int throwable) { pending = throwable; (*t)(J("raise").S("class", throwables[throwable])); }
  int ClassObj(const std::string& n) { int& o = class_objs[n]; if (!o) { o = next_obj++; classes[o] = n; } return o; }
  // call results that only live in the frame are recorded like given references
  jobject Local(int obj) { return Give(obj); }
  void Frame() { refs.clear(); (*t)(J("frame")); }

  static jobject RefOf(const char* f, jobject o) {
    auto* v = I(); if (!o) return nullptr;
    int obj = v->Obj(o); long from = H(o);
    if (!obj) { Fail(std::string(f) + " on a dead reference"); return nullptr; }
    long r = v->NewRef(obj); (*v->t)(J("NewRef").S("f", f).I("from", from).I("r", r)); return O(r);
  }
  static jobject JNICALL NewGlobalRef(JNIEnv*, jobject o) { return RefOf("NewGlobalRef", o); }
  static jobject JNICALL NewLocalRef(JNIEnv*, jobject o) { return RefOf("NewLocalRef", o); }
  static void JNICALL DeleteGlobalRef(JNIEnv*, jobject o) { if (!o) return; (*I()->t)(J("DeleteGlobalRef").I("r", H(o))); I()->refs.erase(H(o)); }
  static void JNICALL DeleteLocalRef(JNIEnv*, jobject o) { if (!o) return; (*I()->t)(J("DeleteLocalRef").I("r", H(o))); I()->refs.erase(H(o)); }
  static const char* JNICALL GetStringUTFChars(JNIEnv*, jstring s, jboolean* copy) {
    auto* v = I(); int o = v->Obj(s);
    const std::string& x = v->strings[o];
    char* p = new char[x.size() + 1]; std::memcpy(p, x.data(), x.size()); p[x.size()] = 0;
    int id = v->next_buf++; v->bufs[p] = {id, p}; if (copy) *copy = JNI_TRUE;
    (*v->t)(J("GetStringUTFChars").I("r", H(s)).I("b", id)); return p;
  }
  static void JNICALL ReleaseStringUTFChars(JNIEnv*, jstring s, const char* p) {
    auto* v = I(); auto it = v->bufs.find(p);
    (*v->t)(J("ReleaseStringUTFChars").I("r", H(s)).I("b", it == v->bufs.end() ? 0 : it->second.first));
    if (it != v->bufs.end()) { std::memset(it->second.second, '#', v->strings[v->Obj(s)].size()); delete[] it->second.second; v->bufs.erase(it); }
  }
  static void Read(const char* f, jobject s) { (*I()->t)(J("read").S("f", f).I("r", H(s))); }
  static jsize JNICALL GetStringUTFLength(JNIEnv*, jstring s) { Read("GetStringUTFLength", s); return jsize(I()->strings[I()->Obj(s)].size()); }
  static jsize JNICALL GetStringLength(JNIEnv*, jstring s) {
    Read("GetStringLength", s); jsize n = 0; for (unsigned char c : I()->strings[I()->Obj(s)]) n += (c & 0xC0) != 0x80; return n;   // UTF-16 units: surrogates are two 3-byte sequences
  }
  static void JNICALL GetStringUTFRegion(JNIEnv*, jstring s, jsize start, jsize len, char* out) {
    Read("GetStringUTFRegion", s); const std::string& x = I()->strings[I()->Obj(s)]; jsize unit = -1;
    std::string r; for (unsigned char c : x) { unit += (c & 0xC0) != 0x80; if (unit >= start && unit < start + len) r += char(c); }
    std::memcpy(out, r.data(), r.size()); out[r.size()] = 0;
  }
  static void Query(const char* f) { (*I()->t)(J("query").S("f", f)); }
  static jclass JNICALL FindClass(JNIEnv*, const char* n) { Query("FindClass"); return (jclass)I()->Local(I()->ClassObj(n)); }
  static jclass JNICALL GetObjectClass(JNIEnv*, jobject o) { Query("GetObjectClass"); return (jclass)I()->Local(I()->ClassObj(I()->throwables[I()->Obj(o)])); }
  static bool IsA(std::string c, const std::string& d) { while (true) { if (c == d) return true; auto it = I()->super.find(c); if (it == I()->super.end()) return d == "java/lang/Throwable" || d == "java/lang/Exception" || d == "java/lang/Object"; c = it->second; } }
  static jboolean JNICALL IsInstanceOf(JNIEnv*, jobject o, jclass c) { Query("IsInstanceOf"); return IsA(I()->throwables[I()->Obj(o)], I()->classes[I()->Obj(c)]); }
  static jboolean JNICALL IsSameObject(JNIEnv*, jobject a, jobject b) { Query("IsSameObject"); return I()->Obj(a) == I()->Obj(b); }
  static jmethodID JNICALL GetMethodID(JNIEnv*, jclass, const char* n, const char* sig) { Query("GetMethodID"); return std::string(n) == "getMessage" && std::string(sig) == "()Ljava/lang/String;" ? (jmethodID)8 : nullptr; }
  static jobject Call(jobject o, jmethodID) { Query("CallObjectMethod"); return I()->Local(I()->messages[I()->Obj(o)]); }
  static jobject JNICALL CallObjectMethod(JNIEnv*, jobject o, jmethodID m, ...) { return Call(o, m); }
  static jobject JNICALL CallObjectMethodV(JNIEnv*, jobject o, jmethodID m, va_list) { return Call(o, m); }
  static jobject JNICALL CallObjectMethodA(JNIEnv*, jobject o, jmethodID m, const jvalue*) { return Call(o, m); }
  static jboolean JNICALL ExceptionCheck(JNIEnv*) { (*I()->t)(J("ExceptionCheck").B("r", I()->pending != 0)); return I()->pending != 0; }
  static jthrowable JNICALL ExceptionOccurred(JNIEnv*) { (*I()->t)(J("ExceptionCheck").B("r", I()->pending != 0)); return (jthrowable)I()->Local(I()->pending); }
  static void JNICALL ExceptionClear(JNIEnv*) { (*I()->t)(J("ExceptionClear")); I()->pending = 0; }
  static jint JNICALL ThrowNew(JNIEnv*, jclass c, const char* m) {
    auto* v = I(); (*v->t)(J("ThrowNew").S("class", v->classes[v->Obj(c)]).S("msg", m ? m : "")); v->pending = v->NewThrowable(v->classes[v->Obj(c)], 0); return 0;
  }
  explicit MockVm(Trace* tr) : t(tr) {
    I() = this; std::memset(&table, 0, sizeof table);
    table.NewGlobalRef = NewGlobalRef; table.NewLocalRef = NewLocalRef; table.DeleteGlobalRef = DeleteGlobalRef; table.DeleteLocalRef = DeleteLocalRef;
    table.GetStringUTFChars = GetStringUTFChars; table.ReleaseStringUTFChars = ReleaseStringUTFChars; table.GetStringUTFLength = GetStringUTFLength; table.GetStringLength = GetStringLength; table.GetStringUTFRegion = GetStringUTFRegion;
    table.FindClass = FindClass; table.GetObjectClass = GetObjectClass; table.IsInstanceOf = IsInstanceOf; table.IsSameObject = IsSameObject; table.GetMethodID = GetMethodID;
    table.CallObjectMethod = CallObjectMethod; table.CallObjectMethodV = CallObjectMethodV; table.CallObjectMethodA = CallObjectMethodA;
    table.ExceptionCheck = ExceptionCheck; table.ExceptionOccurred = ExceptionOccurred; table.ExceptionClear = ExceptionClear; table.ThrowNew = ThrowNew;
    env.functions = &table;
    super = {{"java/lang/ArrayIndexOutOfBoundsException", "java/lang/IndexOutOfBoundsException"}, {"java/lang/NumberFormatException", "java/lang/IllegalArgumentException"},
             {"java/util/InputMismatchException", "java/util/NoSuchElementException"}, {"java/util/concurrent/CancellationException", "java/lang/IllegalStateException"}};
  }
};
}  // namespace verif
#endif
