// C30: ink::jni string views and exception mapping against a recording VM.
#include <memory>
#include <string>
#include "absl/status/status.h"
#include "absl/strings/string_view.h"
#include "mock_jvm.h"
#include "ink/jni/internal/jni_string_util.h"
#include "ink/jni/internal/jni_throw_util.h"
using namespace verif;
static std::string Dig(absl::string_view s) { return s.size() <= 40 ? std::string(s) : std::string(s.substr(0, 20)) + "#" + std::to_string(Digest().S(std::string(s)).Get()); }
int main() {
  Trace t; t.Reset();
  MockVm vm(&t);
  std::vector<std::string> texts = {"", "a", "hello", std::string("\xC0\x80"), std::string("a\xC0\x80" "b\xC0\x80"), "\xED\xA0\xBD\xED\xB8\x80", "\xC3\xA9t\xC3\xA9", std::string(1, ' '), std::string(31, 'x'), std::string(32, 'y'), std::string(255, 'z'), std::string(256, 'w'), std::string(5000, 'q'), std::string(70000, 'r')};
  auto text = [&](absl::string_view got, const std::string& want) { t(J("text").S("got", Dig(got)).S("want", Dig(want)).I("len", long(got.size())).I("wantlen", long(want.size()))); };
  using View = ink::jni::JStringView;
  // every text through both entry points
  for (auto& x : texts) {
    t.Reset(); vm.refs.clear();
    int o = vm.NewString(x); auto s = (jstring)vm.Give(o);
    { View v(&vm.env, s); text(v.string_view(), x); text(v.string_view(), x); }
    t(J("end"));
    text(ink::jni::JStringToStdString(&vm.env, s), x); t(J("end"));
    auto* p = new View(&vm.env, s); auto* q = new View(&vm.env, s); text(p->string_view(), x); delete p; text(q->string_view(), x); delete q; t(J("end"));
  }
  t.Reset(); vm.refs.clear();
  { View v(&vm.env, nullptr); text(v.string_view(), ""); text(v.string_view(), ""); }
  text(ink::jni::JStringToStdString(&vm.env, nullptr), ""); t(J("end"));
  // scopes generated by the specification
  for (auto& b : Behaviours()) {
    t.Reset(); vm.refs.clear(); vm.pending = 0;
    std::string x1 = texts[b.size() % texts.size()], x2 = "other";
    auto s1 = (jstring)vm.Give(vm.NewString(x1)), s2 = (jstring)vm.Give(vm.NewString(x2));
    std::vector<std::pair<std::unique_ptr<View>, std::string>> st;
    for (auto& o : b) {
      if (o[0] == "open") { jstring s = o[1] == "0" ? nullptr : o[1] == "1" ? s1 : s2; st.emplace_back(std::make_unique<View>(&vm.env, s), o[1] == "0" ? "" : o[1] == "1" ? x1 : x2); text(st.back().first->string_view(), st.back().second); }
      else if (o[0] == "close") { text(st.back().first->string_view(), st.back().second); st.pop_back(); }
      else if (o[0] == "throw") vm.Raise(vm.NewThrowable("java/lang/IllegalStateException", 0));
      else std::exit(3);
    }
    for (auto& v : st) text(v.first->string_view(), v.second);
    st.clear(); t(J("end"));
  }
  // status -> exception
  std::vector<std::string> msgs = {"", "x", "Expected `size` to be > 0, got: 0", "percent %s %d %n", std::string(3000, 'm'), "line\nbreak \"quoted\" \\"};
  for (int code = 0; code <= 16; ++code) for (auto& m : msgs) for (int how = 0; how < 2; ++how) {
    t.Reset(); vm.refs.clear(); vm.pending = 0;
    absl::Status st(absl::StatusCode(code), m);
    if (st.ok() && how) continue;
    bool ok = false;
    if (how == 0) ok = ink::jni::CheckOkOrThrow(&vm.env, st); else ink::jni::ThrowExceptionFromStatus(&vm.env, st);
    t(J("throw").B("returned", ok).S("code", absl::StatusCodeToString(st.code())).S("msg", st.ToString())); t(J("end"));
  }
  for (auto* c : {"java/lang/IllegalStateException", "java/lang/RuntimeException", "java/util/NoSuchElementException"}) for (auto& m : msgs) {
    t.Reset(); vm.refs.clear(); vm.pending = 0;
    ink::jni::ThrowException(&vm.env, c, m); t(J("throwas").S("class", c).S("msg", m)); t(J("end"));
  }
  // exception -> status
  std::vector<std::string> classes = {"java/lang/IllegalStateException", "java/lang/IllegalArgumentException", "java/util/NoSuchElementException", "java/lang/IndexOutOfBoundsException", "java/lang/UnsupportedOperationException",
    "java/lang/ArrayIndexOutOfBoundsException", "java/lang/NumberFormatException", "java/util/InputMismatchException", "java/util/concurrent/CancellationException", "java/lang/NullPointerException", "java/lang/Error"};
  auto caught = [&](const std::string& cls, const std::string& want) {
    absl::Status st = ink::jni::CatchExceptionAsStatus(&vm.env);
    t(J("catch").S("class", cls).S("code", absl::StatusCodeToString(st.code())).S("msg", Dig(st.message())).S("want", Dig(want))); t(J("end"));
    absl::Status again = ink::jni::CatchExceptionAsStatus(&vm.env);
    t(J("catch").S("class", "").S("code", absl::StatusCodeToString(again.code())).S("msg", Dig(again.message())).S("want", ""));
  };
  for (auto& c : classes) {
    for (auto& m : texts) { t.Reset(); vm.refs.clear(); vm.Raise(vm.NewThrowable(c, vm.NewString(m))); caught(c, m); }
    t.Reset(); vm.refs.clear(); vm.Raise(vm.NewThrowable(c, 0)); caught(c, "");
  }
}
