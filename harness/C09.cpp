// SRC: base64_helpers.cpp
#include "common.hpp"
#include <common_robotics_utilities/base64_helpers.hpp>
namespace B = common_robotics_utilities::base64_helpers;
static std::string ref(const std::vector<uint8_t>& b)
{
  static const std::string a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string r; uint64_t bits = 0; int n = 0;
  for (uint8_t x : b) { bits = bits << 8 | x; n += 8; while (n >= 6) { r += a[bits >> (n - 6) & 63]; n -= 6; } }
  if (n) r += a[bits << (6 - n) & 63];
  while (r.size() % 4) r += '=';
  return r;
}
static void one(const std::vector<uint8_t>& b)
{
  std::string what = H::S("bytes", H::SV(std::vector<int>(b.begin(), b.end()))); H::at("encode", what); H::ev(!b.empty());
  std::vector<uint8_t> tight(b); tight.shrink_to_fit(); const std::string e = B::Encode(tight);
  H::check(e == ref(b), "standard-text", what, e, "expected", ref(b));
  H::check(B::Decode(e) == b, "round-trip", what, e);
  H::check(B::Decode(ref(b)) == b, "decode-standard", what, ref(b));
}
int main(int c, char** v)
{
  H::init(c, v);
  one({});
  for (int a = 0; a < 256; a++) { one({(uint8_t)a}); for (int b = 0; b < 256; b += (H::thorough ? 1 : 5)) { one({(uint8_t)a, (uint8_t)b}); one({(uint8_t)b, (uint8_t)a}); one({(uint8_t)H::r64(), (uint8_t)a, (uint8_t)b}); } }
  while (H::more(0.3))
  {
    std::vector<uint8_t> b(H::coin(20) ? H::ri(1000, 5000) : H::ri(0, 40)); for (auto& x : b) x = H::coin(6) ? (H::coin() ? 0 : 255) : (uint8_t)H::r64(); one(b);
    std::string s(H::ri(0, 30), 'A'); for (auto& x : s) x = H::coin(3) ? "=+/Az09-_,"[H::ri(0, 9)] : (char)H::r64();
    std::string what = H::S("text", H::SV(std::vector<int>(s.begin(), s.end()))); s.shrink_to_fit(); H::at("decode-anything", what); H::ev();
    (void)H::threw([&] { B::Decode(s); });
  }
  return H::done("all one-byte and a grid of two-byte inputs, random inputs of random length against a bitwise reference encoder, and random text decoded under the address sanitizer");
}
