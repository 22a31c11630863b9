// SRC: serialization.cpp
#include "ser.hpp"
template<class T> void inplace(const char* nm)
{
  for (int k = 0; k < 5; k++)
  {
    B b(H::ri(0, 24)); for (auto& x : b) x = (uint8_t)H::r64(); b.shrink_to_fit(); T v = rnd<T>();
    uint64_t pos = H::coin(4) ? UINT64_MAX - H::ri(0, 10) : (uint64_t)H::ri(0, 26); B old = b, w; be(w, v);
    std::string what = H::S("in place", nm, "buffer", b.size(), "position", pos); H::at("in-place", what); H::ev();
    uint64_t n = 0; int t = H::threw([&] { n = S::SerializeNetworkMemcpyableInPlace<T>(v, b, pos); });
    const bool fits = pos <= b.size() && b.size() - pos >= sizeof(T);
    H::check((t == 0) == fits, "in-place-accepts", what, "threw", t);
    if (t || !fits) { H::check(b == old, "in-place-changed", what); continue; }
    for (size_t i = 0; i < w.size(); i++) old[pos + i] = w[i];
    H::check(b == old && n == sizeof(T), "in-place-bytes", what, "reported", n);
  }
}
int main(int c, char** v)
{
  H::init(c, v);
  while (H::more(0.3))
  {
    allcases(true, Round{true, true});
    inplace<uint8_t>("u8"); inplace<int8_t>("i8"); inplace<uint16_t>("u16"); inplace<int16_t>("i16"); inplace<uint32_t>("u32"); inplace<int32_t>("i32"); inplace<uint64_t>("u64"); inplace<int64_t>("i64"); inplace<float>("f32"); inplace<double>("f64");
    for (int k = 0; k < 20; k++)
    {
      uint64_t r = rnd<uint64_t>(); B e, g; be(e, r); uint64_t h = S::HostToNetwork64(r); le(g, h); H::ev();
      H::check(e == g && S::NetworkToHost64(h) == r, "host-order 64", r);
      uint32_t a = (uint32_t)r; B e2, g2; be(e2, a); le(g2, S::HostToNetwork32(a)); H::check(e2 == g2 && S::NetworkToHost32(S::HostToNetwork32(a)) == a, "host-order 32", a);
      uint16_t q = (uint16_t)r; B e3, g3; be(e3, q); le(g3, S::HostToNetwork16(q)); H::check(e3 == g3 && S::NetworkToHost16(S::HostToNetwork16(q)) == q, "host-order 16", q);
      H::check(S::HostToNetwork8((uint8_t)r) == (uint8_t)r && S::NetworkToHost8((uint8_t)r) == (uint8_t)r, "host-order 8", r);
    }
  }
  return H::done("network encoding of random values compared byte by byte with the big-endian layout, read back, and encoded in place at random positions; every evaluation is one encoding");
}
