// SRC: serialization.cpp base64_helpers.cpp
#include "ser.hpp"
#include <common_robotics_utilities/simple_graph.hpp>
#include <common_robotics_utilities/voxel_grid.hpp>
#include <common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp>
#include <sys/resource.h>
#include <new>
// Impossible allocations fail the way they do outside the sanitizer.
void* operator new(size_t n) { if (n > (1ull << 30)) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
using namespace common_robotics_utilities;
static const uint64_t HUGE_LEN[] = {UINT64_MAX, UINT64_MAX / 2, UINT64_MAX / 8, UINT64_MAX / 8 + 1, UINT64_MAX / 4 + 1, UINT64_MAX / 2 + 1, 1ull << 61, (1ull << 61) + 1, 1ull << 62, 1ull << 63, 1ull << 32, 0x8000000000000001ull, 1ull << 40};
// des(buffer, offset) -> bytes read
static void attack(const std::string& name, const B& good, const std::vector<size_t>& heads, const std::function<uint64_t(const B&, uint64_t)>& des)
{
  for (int k = 0; k < 6; k++)
  {
    B b = good; uint64_t off = 0; std::string how;
    const int q = H::ri(0, 6);
    if (q == 0) { b.resize(H::ri(0, b.size())); how = "truncated"; }
    else if (q == 1) { off = H::ri(0, b.size() + 3); how = "offset"; }
    else if (q == 2) { off = UINT64_MAX - H::ri(0, 20); how = "offset near 2^64"; }
    else if (q == 3 && b.size() >= 8 && !heads.empty()) { size_t p = heads[H::ri(0, heads.size() - 1)]; if (p + 8 > b.size()) continue; uint64_t l; std::memcpy(&l, &b[p], 8); l = H::coin() ? HUGE_LEN[H::ri(0, 12)] : l + H::ri(1, 3); std::memcpy(&b[p], &l, 8); how = H::S("length at", p, "set to", l); }
    else if (q == 4 && b.size()) { for (int m = H::ri(1, 4); m > 0; m--) b[H::ri(0, b.size() - 1)] = (uint8_t)H::r64(); how = "bytes changed"; }
    else if (q == 5) { b.assign(H::ri(0, 60), 0); for (auto& x : b) x = H::coin(3) ? (uint8_t)H::r64() : 0; how = "random bytes"; }
    else how = "intact";
    b.shrink_to_fit(); std::string what = H::S(name, how, "offset", off, "buffer", H::SV(std::vector<int>(b.begin(), b.end()))); H::at("over-read " + name, what); H::ev(how != "intact");
    uint64_t n = 0; int t = H::threw([&] { n = des(b, off); });
    if (t == 0) H::check(off <= b.size() && n <= b.size() - off, "consumed-outside " + name, what, "claimed", n);
    if (how == "intact") H::check(t == 0 && n == good.size(), "intact-rejected " + name, what, "read", n);
    if (how == "truncated" && t == 0 && b.size() < good.size()) H::fail("truncated-accepted " + name, what);
  }
}
struct Att { bool net; template<class T> void operator()(const Case<T>& c) const {
  for (int k = 0; k < 2; k++) { T v = c.gen(); B b; H::at("serialize", c.name); c.ser(v, b); if (b.size() > 600) continue; attack(H::S(net ? "network" : "host", c.name), b, net ? std::vector<size_t>{} : std::vector<size_t>{0, 0, 8}, [&](const B& x, uint64_t o) { return c.des(x, o).BytesRead(); });
    if (net && b.size() >= 8) { B y = b; uint64_t l = S::HostToNetwork64(HUGE_LEN[H::ri(0, 12)]); std::memcpy(&y[0], &l, 8); y.shrink_to_fit(); H::at("over-read network " + c.name, H::S("huge network length", c.name)); uint64_t n = 0; int t = H::threw([&] { n = c.des(y, 0).BytesRead(); }); if (!t) H::check(n <= y.size(), "consumed-outside network " + c.name, c.name); } } } };
int main(int c, char** v)
{
  H::init(c, v);
  auto si = S::Serializer<int32_t>(S::SerializeMemcpyable<int32_t>); auto di = S::Deserializer<int32_t>(S::DeserializeMemcpyable<int32_t>);
  while (H::more(0.3))
  {
    allcases(false, Att{false}); allcases(true, Att{true});
    { simple_graph::Graph<int32_t> g; int n = H::ri(0, 4); for (int i = 0; i < n; i++) g.AddNode(rnd<int32_t>()); for (int i = 0; n > 1 && i < 4; i++) { int a = H::ri(0, n - 1); g.AddEdgeBetweenNodes(a, (a + H::ri(1, n - 1)) % n, 1.0); }
      B b; H::at("serialize", "graph"); simple_graph::Graph<int32_t>::Serialize(g, b, si); attack("graph", b, {0, 8 + 4}, [&](const B& x, uint64_t o) { return simple_graph::Graph<int32_t>::Deserialize(x, o, di).BytesRead(); }); }
    { voxel_grid::VoxelGrid<int32_t> g(Eigen::Isometry3d::Identity(), voxel_grid::GridSizes(1.0, (int64_t)H::ri(1, 3), (int64_t)H::ri(1, 3), (int64_t)H::ri(1, 3)), 3, 4); B b; voxel_grid::VoxelGrid<int32_t>::Serialize(g, b, si);
      std::vector<size_t> hs; for (size_t i = 0; i + 8 <= b.size(); i++) hs.push_back(i); attack("voxel grid", b, hs, [&](const B& x, uint64_t o) { return voxel_grid::VoxelGrid<int32_t>::Deserialize(x, o, di).BytesRead(); }); }
    { voxel_grid::DynamicSpatialHashedVoxelGrid<int32_t> g(Eigen::Isometry3d::Identity(), voxel_grid::GridSizes(1.0, (int64_t)2, (int64_t)1, (int64_t)2), 3, 2); for (int i = 0; i < 3; i++) g.SetLocation(H::rd(-4, 4), H::rd(-4, 4), H::rd(-4, 4), H::coin() ? voxel_grid::DSHVGSetType::SET_CELL : voxel_grid::DSHVGSetType::SET_CHUNK, (int32_t)H::ri(0, 9));
      B b; voxel_grid::DynamicSpatialHashedVoxelGrid<int32_t>::Serialize(g, b, si); std::vector<size_t> hs; for (size_t i = 0; i + 8 <= b.size(); i++) hs.push_back(i); if (b.size() < 3000) attack("hashed grid", b, hs, [&](const B& x, uint64_t o) { return voxel_grid::DynamicSpatialHashedVoxelGrid<int32_t>::Deserialize(x, o, di).BytesRead(); }); }
  }
  return H::done("truncations, shifted and near-2^64 offsets, corrupted length fields and random bytes fed to every deserializer under the address sanitizer; non-trivial: buffers that differ from the serialized form");
}
