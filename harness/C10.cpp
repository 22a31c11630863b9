// SRC: zlib_helpers.cpp
// OPT: -O2
#include "common.hpp"
#include <zlib.h>
#include <common_robotics_utilities/zlib_helpers.hpp>
namespace Z = common_robotics_utilities::zlib_helpers; using B = std::vector<uint8_t>;
static const size_t MB = 1024 * 1024;
// one call of zlib with all the room it can need
static bool inflated(const B& in, B& out, size_t room) { z_stream s; memset(&s, 0, sizeof s); if (inflateInit(&s) != Z_OK) abort(); out.assign(room + 1, 0); s.next_in = const_cast<uint8_t*>(in.data()); s.avail_in = in.size(); s.next_out = out.data(); s.avail_out = out.size(); const int r = inflate(&s, Z_FINISH); out.resize(s.total_out); inflateEnd(&s); return r == Z_STREAM_END; }
static B gen(size_t n, int kind) { B b(n); uint64_t x = H::r64() | 1; for (size_t i = 0; i < n; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; b[i] = kind == 0 ? x : kind == 1 ? 0 : kind == 2 ? (x & 3) : (i >> 3); } return b; }
static void trip(const B& b, const std::string& ctx) { H::at("round trip", ctx); B c, d; H::check(H::threw([&] { c = Z::CompressBytes(b); }) == 0, "compressing fails", ctx); if (!H::failed.empty()) return; B o; H::check(inflated(c, o, b.size()) && o == b, "compressed form is a whole stream of the data", ctx, "length", c.size()); H::check(H::threw([&] { d = Z::DecompressBytes(c); }) == 0, "decompressing fails", ctx); H::check(d == b, "round trip", ctx, "gives length", d.size()); H::ev(b.size() > MB); }
static void any(const B& in, size_t room, const std::string& ctx) { H::at("arbitrary input", ctx); B o, d; const bool ok = inflated(in, o, room); const int t = H::threw([&] { d = Z::DecompressBytes(in); }); if (ok) H::check(t == 0 && d == o, "valid input", ctx); else if (o.size() <= room) H::check(t != 0, "invalid input is rejected", ctx); H::ev(); }
int main(int c, char** v)
{
  H::init(c, v); int round = 0; H::at("short", "empty"); trip(B(), "empty buffer");
  while (H::more(0.4) && H::failed.empty())
  {
    const int kind = round % 4; size_t n = H::coin(3) ? H::ri(0, 300) : H::coin() ? H::ri(0, 3 * MB) : MB * H::ri(1, 3) + H::ri(-3, 3); if (H::coin(12)) n = MB * H::ri(8, 12) + H::ri(-3, 3); round++;
    B b = gen(n, kind); trip(b, H::S("kind", kind, "length", n)); if (!H::failed.empty()) break;
    if (kind == 0) { // incompressible data whose compressed form ends at a multiple of the chunk size
      size_t m = MB * H::ri(1, 2); for (int i = 0; i < 12; i++) { b = gen(m, 0); const size_t k = Z::CompressBytes(b).size(); const size_t want = (k + MB / 2) / MB * MB; if (k == want) break; m = m + want - k; } for (int q = -2; q <= 2; q++) { B e = gen(m + q, 0); trip(e, H::S("incompressible, length", m + q)); } }
    b = gen(H::ri(0, 400), H::ri(0, 3)); B k = Z::CompressBytes(b); const std::string ctx = H::S("compressed form", H::SV(k)); for (size_t q = 0; q < k.size(); q += 1 + k.size() / 60) any(B(k.begin(), k.begin() + q), b.size() + 1000, ctx + H::S("cut to", q));
    for (int q = 0; q < 40; q++) { B e = k; const size_t at = H::ri(0, k.size() - 1); const int bit = H::ri(0, 7); e[at] ^= 1 << bit; any(e, 3 * MB, ctx + H::S("bit", bit, "of byte", at, "flipped")); } any(gen(H::ri(0, 60), 0), 3 * MB, "random bytes");
    if (H::coin(4)) { B big = gen(3 * MB, 0), kk = Z::CompressBytes(big); const size_t cut = H::coin() ? kk.size() - H::ri(1, 6) : H::ri(1, kk.size() - 1); any(B(kk.begin(), kk.begin() + cut), 3 * MB, H::S("3 MB of random bytes, cut to", cut)); }
    if (round % 8 == 1) { char name[64]; snprintf(name, sizeof name, "/tmp/c10-%d.z", (int)getpid()); H::at("file", name); B r; const int t = H::threw([&] { Z::CompressAndWriteToFile(b, name); r = Z::LoadFromFileAndDecompress(name); }); unlink(name); H::check(t == 0 && r == b, "round trip through a file", H::SV(b)); H::check(H::threw([&] { Z::LoadFromFileAndDecompress(std::string(name) + ".none"); }) != 0, "missing file", name); }
  }
  return H::done("buffers of 0 to 12 MiB (random, constant, low entropy, counting), lengths and compressed lengths around multiples of 1 MiB, truncations, flipped bits, random bytes");
}
