// C29: parses texts (token sequences, edits of every well-formed shape, random bytes) with ink::Uri.
#include <set>
#include "absl/hash/hash.h"
#include "absl/strings/str_cat.h"
#include "common.h"
#include "ink/types/uri.h"
using namespace verif;
using ink::Uri;
static std::vector<int> Codes(const std::string& s) { std::vector<int> v; for (unsigned char c : s) v.push_back(c); return v; }
static std::string Type(Uri::AssetType t) { switch (t) { case Uri::AssetType::kUninitialized: return "none"; case Uri::AssetType::kBrushFamily: return "brush-family"; case Uri::AssetType::kTexture: return "texture"; } return "?"; }
int main() {
  Trace t; t.Auto(3000); t.Reset();
  std::set<std::string> seen;
  std::vector<std::string> good;
  auto one = [&](const std::string& s) {
    if (!seen.insert(s).second) return;
    // hand the parser a text that is not followed by a zero byte
    std::vector<char> raw(s.begin(), s.end()); raw.push_back('1');
    auto u = Uri::Parse(absl::string_view(raw.data(), s.size()));
    J j("parse"); j.A("s", Codes(s)).B("ok", u.ok());
    if (!u.ok()) { t(j.I("code", int(u.status().code()))); return; }
    auto canon = u->ToNormalizedString();
    auto back = Uri::Parse(canon);
    t(j.A("reg", Codes(std::string(u->GetRegName()))).S("type", Type(u->GetAssetType())).A("name", Codes(std::string(u->GetAssetName()))).I("rev", u->GetRevisionNumber())
        .B("inkreg", u->HasInkRegName()).A("canon", Codes(canon)).A("str", Codes(absl::StrCat(*u))).B("back", back.ok() && *back == *u));
    if (good.size() < 4000) good.push_back(s);
  };
  // token sequences
  std::vector<std::string> tok = {"ink:", "/", "//", "texture", "brush-family", ":", "a", "2", "0", "?"};
  int depth = Scale(5, 6);
  std::vector<int> idx;
  auto rec = [&](auto&& self, std::string s, int d) -> void { one(s); if (d == 0) return; for (auto& x : tok) self(self, s + x, d - 1); };
  rec(rec, "", Scale(4, 5));
  for (std::string pre : {"", "ink:", "//a", "ink://a-b"}) rec(rec, pre + "/texture:", 3), rec(rec, pre + "/brush-family", 3);
  (void)depth;
  // every well-formed shape, and all single edits of it
  std::vector<std::string> base;
  for (std::string sc : {"", "ink:", "INK:", "iNk:"}) for (std::string rg : {"", "//ink", "//a", "//x-y", "//-"}) for (std::string ty : {"texture", "brush-family"})
    for (std::string nm : {"a", "ink", "marker-pen", "-"}) for (std::string rv : {"", ":1", ":2", ":10", ":999999999", ":1000000000", ":00", ":01", ":100000000", ":2147483648", ":4294967297"}) base.push_back(sc + rg + "/" + ty + ":" + nm + rv);
  for (auto& b : base) one(b);
  std::string alphabet = "/:?#-aAz0129 .%@[`{" + std::string(1, '\0') + "\xc3\x7f\n_+";
  Rng g(Seed());
  int edits = Scale(14000, 200000);
  std::vector<std::string> few = {"ink://ink/texture:marker:12", "/brush-family:a-b", "//reg/texture:t:1", "/texture:z:999999999"};
  for (auto& b : few) {
    for (size_t i = 0; i <= b.size(); ++i) for (char c : alphabet) {
      std::string s = b; s.insert(i, 1, c); one(s);
      if (i < b.size()) { s = b; s[i] = c; one(s); }
    }
    for (size_t i = 0; i < b.size(); ++i) { std::string s = b; s.erase(i, 1); one(s); one(b.substr(i)); one(b.substr(0, i)); s = b; if (i + 1 < s.size()) std::swap(s[i], s[i + 1]); one(s); s = b; s[i] = char(std::toupper(s[i])); one(s); }
  }
  for (int k = 0; k < edits; ++k) {
    std::string s = g.Pick(base);
    for (int e = g.Int(1, 3); e > 0; --e) {
      size_t i = size_t(g.Int(0, int(s.size())));
      switch (g.Int(0, 3)) {
        case 0: s.insert(i, 1, g.Chance(4, 5) ? g.Pick(alphabet) : char(g.Int(0, 255))); break;
        case 1: if (i < s.size()) s.erase(i, 1); break;
        case 2: if (i < s.size()) s[i] = g.Chance(4, 5) ? g.Pick(alphabet) : char(g.Int(0, 255)); break;
        default: s.insert(i, g.Pick(tok));
      }
    }
    one(s);
  }
  // equality and hashing
  { Uri d; t(J("parse").A("s", Codes("")).B("ok", true).A("reg", Codes(std::string(d.GetRegName()))).S("type", Type(d.GetAssetType())).A("name", Codes(std::string(d.GetAssetName()))).I("rev", d.GetRevisionNumber())
        .B("inkreg", d.HasInkRegName()).A("canon", Codes(d.ToNormalizedString())).A("str", Codes(absl::StrCat(d))).B("back", *Uri::Parse("") == d)); }
  std::vector<std::string> sample = {"", "/texture:a", "ink:/texture:a:1", "//ink/texture:a", "//a/texture:a", "/brush-family:a", "/texture:a:2", "/texture:b", "//texture/texture:a", "//a/texture:ink", "//ink/texture:ink", "/texture:ink:999999999", "/texture:ink:999999998"};
  for (int i = 0; i < Scale(60, 300); ++i) sample.push_back(g.Pick(good));
  for (auto& a : sample) for (auto& b : sample) {
    Uri u = *Uri::Parse(a), v = *Uri::Parse(b);
    t(J("pair").A("s", Codes(a)).A("t", Codes(b)).B("eq", u == v).B("ne", u != v).B("hash", absl::Hash<Uri>()(u) == absl::Hash<Uri>()(v)));
  }
}
