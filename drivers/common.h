// Helpers shared by all drivers: trace writing, deterministic randomness, encodings of floats as TLC integers.
#ifndef VERIF_DRIVERS_COMMON_H_
#define VERIF_DRIVERS_COMMON_H_
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <limits>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace verif {

inline const char* Env(const char* n, const char* d) { const char* v = std::getenv(n); return v ? v : d; }
inline bool Thorough() { return std::string(Env("VERIF_TIER", "quick")) == "thorough"; }
inline uint64_t Seed() { return std::strtoull(Env("VERIF_SEED", "1"), nullptr, 10); }
inline int Scale(int quick, int thorough) { return Thorough() ? thorough : quick; }

// Deterministic generator (splitmix64).
class Rng {
 public:
  explicit Rng(uint64_t s) : s_(s * 0xD1342543DE82EF95ull + 0x1234567) { s_ = Next() ^ (s << 17); }
  uint64_t Next() { uint64_t z = (s_ += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  int Int(int lo, int hi) { return lo + int(Next() % uint64_t(hi - lo + 1)); }
  bool Chance(int num, int den) { return Int(1, den) <= num; }
  template <typename C> const auto& Pick(const C& c) { return c[size_t(Next() % std::size(c))]; }
  float Bits() { uint32_t b = uint32_t(Next()); float f; std::memcpy(&f, &b, 4); return f; }
  float Unit() { return float(Next() % (1 << 24)) / float(1 << 24); }
 private:
  uint64_t s_;
};

// Order-preserving encoding of a float as a 32-bit integer (-0 and +0 both give 0; NaN gives 2147483647).
constexpr int kNaN = 2147483647;
constexpr int kInf = 0x7f800000;
inline int Enc(float f) {
  if (std::isnan(f)) return kNaN;
  int32_t b; std::memcpy(&b, &f, 4);
  return b >= 0 ? b : -(b & 0x7fffffff);
}
inline float Dec(int e) { int32_t b = e >= 0 ? e : int32_t(0x80000000u | uint32_t(-e)); float f; std::memcpy(&f, &b, 4); return f; }

// One JSON object per line.
class J {
 public:
  explicit J(const char* op = nullptr) { if (op) S("op", op); }
  J& K(const char* k) { s_ += s_.size() > 1 ? ",\"" : "\""; s_ += k; s_ += "\":"; return *this; }
  J& I(const char* k, long long v) { K(k); s_ += std::to_string(v); return *this; }
  J& B(const char* k, bool v) { K(k); s_ += v ? "true" : "false"; return *this; }
  J& S(const char* k, const std::string& v) { K(k); s_ += Quote(v); return *this; }
  J& F(const char* k, float v) { return I(k, Enc(v)); }
  template <typename V> J& A(const char* k, const V& v) { K(k); s_ += Arr(v); return *this; }
  J& Raw(const char* k, const std::string& v) { K(k); s_ += v; return *this; }
  template <typename V> static std::string Arr(const V& v) {
    std::string s = "[";
    bool first = true;
    for (const auto& e : v) { if (!first) s += ","; first = false; s += Val(e); }
    return s + "]";
  }
  static std::string Val(const std::string& s) { return Quote(s); }
  static std::string Val(const char* s) { return Quote(s); }
  static std::string Val(const J& j) { return j.Str(); }
  static std::string Val(float f) { return std::to_string(Enc(f)); }
  template <typename T> static std::string Val(const std::vector<T>& v) { return Arr(v); }
  template <typename T, size_t N> static std::string Val(const std::array<T, N>& v) { return Arr(v); }
  template <typename T> static auto Val(T v) -> std::enable_if_t<std::is_integral_v<T>, std::string> { if constexpr (std::is_same_v<T, bool>) return v ? "true" : "false"; else return std::to_string(v); }
  static std::string Quote(const std::string& v) {
    std::string s = "\"";
    for (unsigned char c : v) {
      char b[8];
      if (c == '"' || c == '\\') { s += '\\'; s += char(c); }
      else if (c < 32 || c > 126) { std::snprintf(b, sizeof b, "\\u%04x", c); s += b; }
      else s += char(c);
    }
    return s + "\"";
  }
  std::string Str() const { return s_ + "}"; }
 private:
  std::string s_ = "{";
};

class Trace {
 public:
  Trace() { f_ = std::fopen(Env("TRACE_OUT", "/dev/stdout"), "w"); if (!f_) std::exit(3); }
  ~Trace() { if (f_) std::fclose(f_); }
  void Auto(long n) { auto_ = n; }  // stateless traces: a reset line every n events
  void operator()(const J& j) { if (auto_ && ++since_ >= auto_) { since_ = 0; Reset(); } std::fputs((j.Str() + "\n").c_str(), f_); ++n_; if (flush_) std::fflush(f_); }
  void Reset() { (*this)(J("reset")); }
  void FlushEach() { flush_ = true; }
  long n() const { return n_; }
 private:
  FILE* f_; long n_ = 0, auto_ = 0, since_ = 0; bool flush_ = true;
};

// Behaviours generated by TLC from the specification: one per line, ops separated by ';', arguments by ' '.
inline std::vector<std::vector<std::vector<std::string>>> Behaviours() {
  std::vector<std::vector<std::vector<std::string>>> out;
  std::ifstream in(Env("BEHAVIOURS", "/dev/null"));
  std::string line;
  while (std::getline(in, line)) {
    out.emplace_back();
    size_t i = 0;
    while (i < line.size()) {
      size_t e = line.find(';', i); if (e == std::string::npos) e = line.size();
      std::vector<std::string> op; std::string w;
      for (size_t k = i; k <= e; ++k) { if (k == e || line[k] == ' ') { if (!w.empty()) op.push_back(w); w.clear(); } else w += line[k]; }
      if (!op.empty()) out.back().push_back(op);
      i = e + 1;
    }
  }
  return out;
}

// 31-bit digest of arbitrary bytes / floats (for "is it the same observable?" questions).
class Digest {
 public:
  Digest& U(uint64_t v) { for (int i = 0; i < 8; ++i) { h_ = (h_ ^ ((v >> (8 * i)) & 255)) * 1099511628211ull; } return *this; }
  Digest& F(float f) { return U(uint64_t(int64_t(Enc(f)))); }
  Digest& S(const std::string& s) { for (unsigned char c : s) U(c); return U(s.size()); }
  int Get() const { return int((h_ ^ (h_ >> 31)) & 0x7fffffff); }
 private:
  uint64_t h_ = 1469598103934665603ull;
};

}  // namespace verif
#endif
