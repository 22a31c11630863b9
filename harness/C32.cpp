#include "common.hpp"
#include <common_robotics_utilities/color_builder.hpp>
using namespace common_robotics_utilities::color_builder;
struct Col { float r, g, b, a; };
static float ch() { switch (H::ri(0, 6)) { case 0: return 0; case 1: return 1; case 2: return -0.0f; case 3: return H::rd(-1e9, 1e9); case 4: return std::numeric_limits<float>::infinity() * (H::coin() ? 1 : -1); default: return H::rd(-0.2, 1.2); } }
static float cl(float x) { return x < 0 ? 0 : x > 1 ? 1 : x; }
static float fb(int h) { return (float)h / 255.0f; }
template <class C> static void is(const C& c, float r, float g, float b, float a, const char* nm, const std::string& ctx) { H::check(c.r == r && c.g == g && c.b == b && c.a == a, nm, ctx, c.r, c.g, c.b, c.a); }
int main(int c, char** v)
{
  H::init(c, v);
  for (int h = 0; h < 256; h++) { H::check(ColorChannelToHex(ColorChannelFromHex(h)) == h, "byte round trip", H::S(h)); H::check(std::abs(ColorChannelFromHex(h) - h / 255.0) < 1e-7, "byte to channel", H::S(h)); }
  std::set<std::vector<float>> seen; for (uint32_t k = 1; k <= 20; k++) { const auto q = LookupUniqueColor<Col>(k); H::check(seen.insert({q.r, q.g, q.b}).second, "distinct table colours", H::S(k)); }
  while (H::more(0.3) && H::failed.empty())
  {
    const float r = ch(), g = ch(), b = ch(), a = ch(); const uint8_t x = H::ri(0, 255), y = H::ri(0, 255), z = H::ri(0, 255), w = H::ri(0, 255); const auto ctx = H::S(r, g, b, a, (int)x, (int)y, (int)z, (int)w); H::at("colours", ctx);
    is(RGBAColor(r, g, b, a), cl(r), cl(g), cl(b), cl(a), "float channels", ctx); is(RGBAColor(r, g, b), cl(r), cl(g), cl(b), 1, "three float channels", ctx); is(RGBAColor(x, y, z, w), fb(x), fb(y), fb(z), fb(w), "byte channels", ctx); is(RGBAColor(x, y, z, a), fb(x), fb(y), fb(z), cl(a), "mixed channels", ctx); is(RGBAColor(x, y, z), fb(x), fb(y), fb(z), 1, "three byte channels", ctx); is(RGBAColor(), 0, 0, 0, 0, "default colour", ctx);
    is(MakeFromFloatColors<Col>(r, g, b, a), cl(r), cl(g), cl(b), cl(a), "make float", ctx); is(MakeFromHexColors<Col>(x, y, z, w), fb(x), fb(y), fb(z), fb(w), "make hex", ctx); is(MakeFromMixedColors<Col>(x, y, z, a), fb(x), fb(y), fb(z), cl(a), "make mixed", ctx); is(ConvertColor<Col, RGBAColor>(Col{r, g, b, a}), cl(r), cl(g), cl(b), cl(a), "convert", ctx);
    RGBAColor s(g, b, r, a); s.SetR(r); s.SetG(g); s.SetB(b); s.SetA(a); is(s, cl(r), cl(g), cl(b), cl(a), "setters", ctx); H::check(s.R() == s.r && s.G() == s.g && s.B() == s.b && s.A() == s.a, "getters", ctx); s.SetRHex(x); is(s, fb(x), cl(g), cl(b), cl(a), "byte setter", ctx); s.SetGHex(y); s.SetBHex(z); s.SetAHex(w); is(s, fb(x), fb(y), fb(z), fb(w), "byte setters", ctx); H::check(s.GetRHex() == x && s.GetGHex() == y && s.GetBHex() == z && s.GetAHex() == w, "byte getters", ctx);
    const int hx = ColorChannelToHex(r); H::check(std::abs(hx - 255.0 * cl(r)) <= 0.5001, "channel to byte", ctx, hx);
    const uint32_t key = H::coin(4) ? H::rng() : H::ri(0, 23); const auto q = LookupUniqueColor<Col>(key, a); for (float t : {q.r, q.g, q.b, q.a}) H::check(t >= 0 && t <= 1, "lookup in range", ctx, key); H::check(q.a == (key ? cl(a) : 0), "lookup alpha", ctx, key); if (key > 20) H::check(q.r + q.g + q.b == 0, "beyond the table", ctx, key);
    const double lo = H::rd(-10, 10), hi = lo + (H::coin() ? H::rd(1e-9, 20) : 1e-300), val = H::coin(4) ? (H::coin() ? lo : hi) : H::rd(-15, 15); if (hi > lo) { const auto p = InterpolateHotToCold<Col>(val, lo, hi); for (float t : {p.r, p.g, p.b, p.a}) H::check(t >= 0 && t <= 1, "hot to cold in range", H::S(val, lo, hi), t); }
    const float tol = H::coin() ? 0 : H::rd(0, 1); const Col A{cl(r), cl(g), cl(b), cl(a)}, B{H::coin() ? A.r : fb(x), H::coin() ? A.g : fb(y), H::coin() ? A.b : fb(z), H::coin() ? A.a : fb(w)}; auto d = [](float m, float n) { return std::abs(m - n); }; H::check(ColorsEqual(A, B, tol) == (d(A.r, B.r) <= tol && d(A.g, B.g) <= tol && d(A.b, B.b) <= tol && d(A.a, B.a) <= tol), "equality", ctx, tol);
    H::ev(true);
  }
  return H::done("all bytes round trip; colours from in-range, out-of-range and infinite channels, bytes, mixed, setters, conversion, lookup keys 0-23 and arbitrary, hot-to-cold ranges, equality with tolerances");
}
