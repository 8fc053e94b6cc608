// C28: replays call sequences on ink::SmallArray (of int and of std::string) and walks ink::iterator_range of every kind.
#include <array>
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include "common.h"
#include "absl/types/span.h"
#include "ink/types/iterator_range.h"
#include "ink/types/small_array.h"
using namespace verif;
static void Mk(int v, int& o) { o = v; }
static void Mk(int v, std::string& o) { o = v == 0 ? std::string() : std::to_string(v) + std::string(size_t(v % 40), 'x'); }
static int Un(int v) { return v; }
static int Un(const std::string& s) { return s.empty() ? 0 : std::atoi(s.c_str()); }
template <typename T> T Val(int v) { T t{}; Mk(v, t); return t; }
template <typename T, uint8_t N> struct World {
  using A = ink::SmallArray<T, N>;
  std::unique_ptr<A> a[3];
  void Start(Trace& t) { for (auto& p : a) p = std::make_unique<A>(); t.Reset(); }
  void Run(Trace& t, const std::string& op, int i, int j, int n, int v) {
    if ((op == "set" || op == "spanset") && (n < 1 || n > a[i]->Size())) return;
    if (op == "own" && a[i]->Size() == 0) return;
    if (n > N) return;
    if (op == "count") a[i] = std::make_unique<A>(uint8_t(n));
    else if (op == "fill") { if (v % 2) a[i] = std::make_unique<A>(uint8_t(n), Val<T>(v)); else *a[i] = A(uint8_t(n), Val<T>(v)); }
    else if (op == "list") { auto x = [&](int k) { return Val<T>(v + k); };
      switch (n) { case 0: *a[i] = A(std::initializer_list<T>{}); break; case 1: *a[i] = A{x(1)}; break; case 2: *a[i] = A{x(1), x(2)}; break; case 3: *a[i] = A{x(1), x(2), x(3)}; break;
        default: { std::vector<T> w; for (int k = 1; k <= n; ++k) w.push_back(x(k)); *a[i] = A(absl::Span<const T>(w)); } } }
    else if (op == "span") { std::vector<T> w; for (int k = 1; k <= n; ++k) w.push_back(Val<T>(v + k)); *a[i] = A(absl::Span<const T>(w)); }
    else if (op == "grow") a[i]->Resize(uint8_t(n));
    else if (op == "resize") a[i]->Resize(uint8_t(n), Val<T>(v));
    else if (op == "own") a[i]->Resize(uint8_t(n), (*a[i])[0]);
    else if (op == "set") (*a[i])[uint8_t(n - 1)] = Val<T>(v);
    else if (op == "spanset") a[i]->Values()[size_t(n - 1)] = Val<T>(v);
    else if (op == "copy") *a[i] = *a[j];
    else if (op == "cctor") { auto p = std::make_unique<A>(*a[j]); a[i] = std::move(p); }
    else if (op == "move") { if (i == j) return; *a[i] = std::move(*a[j]); a[j] = std::make_unique<A>(); }
    else std::exit(3);
    std::vector<std::vector<int>> vals, idx; std::vector<int> sizes; std::string eq = "[";
    for (int h = 1; h <= 2; ++h) {
      const A& c = *a[h]; std::vector<int> x, y;
      for (const T& e : c.Values()) x.push_back(Un(e));
      for (int k = 0; k < c.Size(); ++k) y.push_back(Un(c[uint8_t(k)]));
      vals.push_back(x); idx.push_back(y); sizes.push_back(c.Size());
      eq += std::string(h > 1 ? "," : "") + "[" + (*a[h] == *a[1] ? "true" : "false") + "," + (*a[h] == *a[2] ? "true" : "false") + "]";
    }
    t(J("call").S("f", op).I("i", i).I("j", j).I("n", n).I("v", v).A("vals", vals).A("idx", idx).A("sizes", sizes).Raw("eq", eq + "]").I("max", a[1]->MaxSize()).I("cap", N));
  }
};
template <typename T, uint8_t N> void Random(Trace& t, Rng& g, int runs) {
  World<T, N> w; const char* ops[] = {"count", "fill", "list", "span", "grow", "grow", "resize", "resize", "own", "set", "spanset", "copy", "cctor", "move"};
  for (int r = 0; r < runs; ++r) { w.Start(t); for (int k = 0; k < 30; ++k) w.Run(t, g.Pick(ops), g.Int(1, 2), g.Int(1, 2), g.Int(0, N), g.Int(1, 200)); }
}
template <typename R> std::vector<int> Walk(const R& r) { std::vector<int> v; for (auto it = r.begin(); it != r.end(); ++it) v.push_back(int(*it)); return v; }
template <typename R> long SizeOf(const R& r) { if constexpr (requires { r.size(); }) return long(r.size()); else return -1; }
template <typename It> void Range(Trace& t, const char* kind, const std::vector<int>& elems, int lo, int hi, It b, It e, int how) {
  ink::iterator_range<It> r = how == 0 ? ink::iterator_range<It>(b, e) : how == 1 ? ink::make_range(b, e) : ink::make_range(std::pair<It, It>(b, e));
  ink::iterator_range<It> copy = r; const auto& cr = copy;
  constexpr bool input = std::is_same_v<typename std::iterator_traits<It>::iterator_category, std::input_iterator_tag>;
  bool empty = cr.empty(); long size = SizeOf(cr);
  auto got = Walk(cr);
  std::vector<int> again; if (input) again = got; else for (auto x : cr) again.push_back(int(x));
  t(J("range").S("kind", kind).A("elems", elems).I("lo", lo).I("hi", hi).A("got", got).A("again", again).B("empty", empty).I("size", size).B("ra", std::is_base_of_v<std::random_access_iterator_tag, typename std::iterator_traits<It>::iterator_category>));
}
int main() {
  Trace t;
  World<int, 2> wi; World<std::string, 2> ws; World<int, 3> w3;
  int k = 0;
  for (auto& b : Behaviours()) {
    if (++k % 2) { wi.Start(t); for (auto& o : b) wi.Run(t, o[0], std::stoi(o[1]), std::stoi(o[2]), std::stoi(o[3]), std::stoi(o[4])); }
    else { ws.Start(t); for (auto& o : b) ws.Run(t, o[0], std::stoi(o[1]), std::stoi(o[2]), std::stoi(o[3]), std::stoi(o[4])); }
  }
  Rng g(Seed()); int n = Scale(60, 1500);
  Random<int, 1>(t, g, n); Random<int, 3>(t, g, n); Random<std::string, 3>(t, g, n); Random<std::string, 5>(t, g, n); Random<int, 9>(t, g, n); Random<int, 255>(t, g, Scale(4, 40));
  t.Reset();
  for (int size = 0; size <= Scale(6, 9); ++size) {
    std::vector<int> v; for (int i = 0; i < size; ++i) v.push_back(7 * i + 1);
    std::list<int> li(v.begin(), v.end()); std::forward_list<int> fl(v.begin(), v.end()); std::deque<int> dq(v.begin(), v.end()); std::set<int> st(v.begin(), v.end());
    std::vector<int> rv(v.rbegin(), v.rend()); std::vector<bool> vb; std::vector<int> vbi; for (int i = 0; i < size; ++i) { vb.push_back(i % 3 == 0); vbi.push_back(i % 3 == 0); }
    for (int lo = 0; lo <= size; ++lo) for (int hi = lo; hi <= size; ++hi) for (int how = 0; how < 3; ++how) {
      Range(t, "pointer", v, lo, hi, (const int*)v.data() + lo, (const int*)v.data() + hi, how);
      Range(t, "mutable pointer", v, lo, hi, v.data() + lo, v.data() + hi, how);
      Range(t, "vector", v, lo, hi, v.begin() + lo, v.begin() + hi, how);
      Range(t, "reverse", rv, lo, hi, v.rbegin() + lo, v.rbegin() + hi, how);
      Range(t, "deque", v, lo, hi, dq.begin() + lo, dq.begin() + hi, how);
      Range(t, "vector<bool>", vbi, lo, hi, vb.begin() + lo, vb.begin() + hi, how);
      Range(t, "list", v, lo, hi, std::next(li.begin(), lo), std::next(li.begin(), hi), how);
      Range(t, "forward", v, lo, hi, std::next(fl.begin(), lo), std::next(fl.begin(), hi), how);
      Range(t, "set", v, lo, hi, std::next(st.cbegin(), lo), std::next(st.cbegin(), hi), how);
      if (hi == size) { std::string s; for (int i = lo; i < size; ++i) s += std::to_string(v[size_t(i)]) + " "; std::istringstream in(s); Range(t, "input", v, lo, hi, std::istream_iterator<int>(in), std::istream_iterator<int>(), how); }
    }
  }
  ink::iterator_range<const int*> d; std::vector<int> none;
  t(J("range").S("kind", "default").A("elems", none).I("lo", 0).I("hi", 0).A("got", Walk(d)).A("again", none).B("empty", d.empty()).I("size", SizeOf(d)).B("ra", true));
}
