// C03: replays call sequences (all those TLC enumerates, plus random longer ones) on real CopyOnWrite handles.
#include <memory>
#include "common.h"
#include "ink/types/internal/copy_on_write.h"
using namespace verif;
static int live = 0, copies = 0;
struct Obj {
  int v;
  Obj(int v) : v(v) { ++live; }
  Obj(const Obj& o) : v(o.v) { ++live; ++copies; }
  Obj& operator=(const Obj& o) { v = o.v; ++copies; return *this; }
  ~Obj() { v = -777; --live; }
};
using Cow = ink_internal::CopyOnWrite<Obj>;
static std::unique_ptr<Cow> h[4];
static void Start(Trace& t) { for (auto& p : h) p = std::make_unique<Cow>(); t.Reset(); }
static bool Run(Trace& t, const std::string& op, int i, int j, int v) {
  int c0 = copies;
  if ((op == "mutate" || op == "touch") && !h[i]->HasValue()) return false;
  if (op == "emplace") h[i]->Emplace(v);
  else if (op == "ctor") { Obj o(v); h[i] = std::make_unique<Cow>(std::move(o)); c0 = copies; }
  else if (op == "copy") *h[i] = *h[j];
  else if (op == "cctor") h[i] = std::make_unique<Cow>(*h[j]);
  else if (op == "move") *h[i] = std::move(*h[j]);
  else if (op == "mctor") h[i] = std::make_unique<Cow>(std::move(*h[j]));
  else if (op == "swap") std::swap(*h[i], *h[j]);
  else if (op == "reset") h[i]->Reset();
  else if (op == "mutate") h[i]->MutableValue().v = v;
  else if (op == "touch") h[i]->MutableValue();
  else std::exit(3);
  std::vector<bool> has, sh; std::vector<int> vals, addr;
  for (int k = 1; k <= 3; ++k) {
    bool b = h[k]->HasValue();
    has.push_back(b); sh.push_back(h[k]->IsShared());
    int a = 0;
    if (b) for (int m = 3; m >= 1; --m) if (h[m]->HasValue() && &h[m]->Value() == &h[k]->Value()) a = m;
    addr.push_back(a);
    vals.push_back(!b ? -1 : (h[k]->Value().v == (*h[k])->v && (**h[k]).v == (*h[k])->v) ? (*h[k])->v : -2);
  }
  std::vector<int> hasi(has.begin(), has.end()), shi(sh.begin(), sh.end());
  auto bools = [](const std::vector<bool>& x) { std::string s = "["; for (size_t k = 0; k < x.size(); ++k) s += std::string(k ? "," : "") + (x[k] ? "true" : "false"); return s + "]"; };
  t(J("call").S("f", op).I("i", i).I("j", j).I("v", v).Raw("has", bools(has)).Raw("shared", bools(sh)).A("vals", vals).A("addr", addr).I("live", live).I("copies", copies - c0));
  return true;
}
int main() {
  Trace t;
  for (auto& b : Behaviours()) { Start(t); for (auto& o : b) if (!Run(t, o[0], std::stoi(o[1]), std::stoi(o[2]), std::stoi(o[3]))) break; }
  Rng g(Seed());
  const char* ops[] = {"emplace", "ctor", "copy", "copy", "cctor", "move", "mctor", "swap", "reset", "mutate", "mutate", "touch"};
  for (int r = 0; r < Scale(150, 3000); ++r) {
    Start(t);
    for (int k = 0; k < 40; ++k) {
      std::string op = g.Pick(ops);
      int i = g.Int(1, 3), j = g.Int(1, 3);
      if (op != "copy" && i == j) j = i % 3 + 1;
      Run(t, op, i, j, g.Int(1, 1000));
    }
  }
  for (auto& p : h) p.reset();
}
