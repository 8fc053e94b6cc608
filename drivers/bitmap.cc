// C35: bitmaps of every kind of size and format; the pixel data may be as long as it claims only in its length.
#include "common.h"
#include "ink/rendering/bitmap.h"
using namespace verif;
using ink::Bitmap; using ink::Color; using ink::ColorSpace;
using PF = Bitmap::PixelFormat; using CF = Color::Format;
// Pixel data whose bytes are not there: validation must not read them.
class Claimed : public Bitmap {
 public:
  Claimed(int w, int h, PF p, CF c, ColorSpace s, uint64_t n) : Bitmap(w, h, p, c, s), n_(n) {}
  absl::Span<const uint8_t> GetPixelData() const override { return absl::Span<const uint8_t>(reinterpret_cast<const uint8_t*>(16), n_); }
 private:
  uint64_t n_;
};
static std::string P(PF p) { return p == PF::kRgba8888 ? "kRgba8888" : "?"; }
static std::string C(CF c) { return c == CF::kLinear ? "kLinear" : c == CF::kGammaEncoded ? "kGammaEncoded" : c == CF::kPremultipliedAlpha ? "kPremultipliedAlpha" : "?"; }
static std::string S(ColorSpace s) { return s == ColorSpace::kSrgb ? "kSrgb" : s == ColorSpace::kDisplayP3 ? "kDisplayP3" : "?"; }
static std::vector<int> Digits(uint64_t n) { std::vector<int> d; for (; n; n /= 1024) d.push_back(int(n % 1024)); return d; }
int main() {
  Trace t; t.Auto(3000); t.Reset();
  Rng g(Seed());
  t(J("perpixel").S("pixel", "kRgba8888").I("n", (long long)ink::PixelFormatBytesPerPixel(PF::kRgba8888)));
  auto one = [&](int w, int h, int p, int c, int s, uint64_t n) {
    PF pf = static_cast<PF>(p); CF cf = static_cast<CF>(c); ColorSpace cs = static_cast<ColorSpace>(s);
    absl::Status st; bool kept;
    if (n <= 4096 && g.Chance(1, 2)) {
      std::vector<uint8_t> data(n); for (auto& b : data) b = uint8_t(g.Next());
      ink::VectorBitmap v(w, h, pf, cf, cs, data); st = ink::rendering_internal::ValidateBitmap(v);
      kept = v.width() == w && v.height() == h && v.pixel_format() == pf && v.color_format() == cf && v.color_space() == cs && std::vector<uint8_t>(v.GetPixelData().begin(), v.GetPixelData().end()) == data;
    } else { Claimed v(w, h, pf, cf, cs, n); st = ink::rendering_internal::ValidateBitmap(v); kept = v.width() == w && v.height() == h && v.pixel_format() == pf && v.color_format() == cf && v.color_space() == cs; }
    t(J("bitmap").I("w", w).I("h", h).S("pixel", P(pf)).S("color", C(cf)).S("space", S(cs)).A("bytes", Digits(n)).B("ok", st.ok()).I("code", int(st.code())).B("kept", kept));
  };
  const std::vector<int> sizes = {-2147483647, -65536, -4, -1, 0, 1, 2, 3, 4, 5, 16, 17, 255, 256, 1000, 4096, 16384, 32767, 32768, 46340, 46341, 65535, 65536, 65537, 1 << 20, (1 << 20) + 1, 1 << 29, 1 << 30, (1 << 30) + 1, 2147483646, 2147483647};
  const std::vector<int> enums = {-1, 0, 1, 2, 3, 4, 255, 256, 257, 65536, -2147483647, 2147483647};
  auto need = [](int w, int h) { return uint64_t(uint32_t(w)) * uint64_t(uint32_t(h)) * 4; };
  for (int w : sizes) for (int h : sizes) {
    uint64_t n = need(w, h);
    std::vector<uint64_t> ns = {n, n + 1, n - 1, 0, n & 0xffffffffu, uint64_t(w) * uint64_t(h), uint64_t(w) * uint64_t(h) * 3, uint64_t(w) * uint64_t(h) * 4, uint64_t(int64_t(int(uint32_t(w) * uint32_t(h) * 4u)))};
    for (uint64_t k : ns) one(w, h, 0, g.Int(0, 2), g.Int(0, 1), k);
  }
  for (int p : enums) for (int c : enums) for (int s : enums) one(3, 2, p, c, s, 24);
  for (int p : enums) { one(0, 2, p, 0, 0, 0); one(2, -1, p, 1, 1, 8); one(2, 2, p, 1, 1, 15); }
  for (int k = Scale(8000, 100000); k > 0; --k) {
    auto dim = [&] { return g.Chance(2, 3) ? g.Int(1, 40) : g.Chance(1, 2) ? g.Pick(sizes) : int(g.Next()); };
    int w = dim(), h = dim(); uint64_t n = need(w, h); switch (g.Int(0, 5)) { case 0: n += uint64_t(g.Int(-8, 8)); break; case 1: n = g.Next(); break; case 2: n ^= uint64_t(1) << g.Int(0, 63); break; default:; }
    one(w, h, g.Chance(1, 12) ? g.Pick(enums) : 0, g.Chance(1, 12) ? g.Pick(enums) : g.Int(0, 2), g.Chance(1, 12) ? g.Pick(enums) : g.Int(0, 1), n);
  }
}
