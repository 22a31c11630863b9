#include "common.hpp"
#include <common_robotics_utilities/voxel_grid.hpp>
using namespace common_robotics_utilities; using namespace common_robotics_utilities::voxel_grid;
struct G : public VoxelGridBase<int64_t>
{
  std::vector<GridIndex> asked; int raws = 0; std::function<bool(int64_t, int64_t, int64_t)> allow = [](int64_t, int64_t, int64_t) { return true; }; bool rawok = true;
  std::unique_ptr<VoxelGridBase<int64_t>> DoClone() const override { return std::unique_ptr<VoxelGridBase<int64_t>>(new G(*this)); }
  uint64_t DerivedSerializeSelf(std::vector<uint8_t>&, const serialization::Serializer<int64_t>&) const override { return 0; }
  uint64_t DerivedDeserializeSelf(const std::vector<uint8_t>&, const uint64_t, const serialization::Deserializer<int64_t>&) override { return 0; }
  bool OnMutableAccess(const int64_t x, const int64_t y, const int64_t z) override { asked.push_back(GridIndex(x, y, z)); return allow(x, y, z); }
  bool OnMutableRawAccess() override { raws++; return rawok; }
  G(const Eigen::Isometry3d& t, const GridSizes& s, int64_t d, int64_t o) : VoxelGridBase<int64_t>(t, s, d, o) {}
  G(const GridSizes& s, int64_t d, int64_t o) : VoxelGridBase<int64_t>(s, d, o) {}
};
static void run(int steps)
{
  const int64_t nx = H::ri(1, 6), ny = H::ri(1, 7), nz = H::ri(1, 8); const int64_t tot = nx * ny * nz;
  const double cs = H::coin() ? 1.0 : 0.5;
  Eigen::Isometry3d tr = Eigen::Isometry3d::Identity(); if (H::coin()) { tr.translation() = Eigen::Vector3d(H::rd(-5, 5), H::rd(-5, 5), H::rd(-5, 5)); tr.linear() = Eigen::AngleAxisd(H::rd(-3, 3), Eigen::Vector3d(1, 2, 3).normalized()).toRotationMatrix(); }
  int64_t def = H::ri(-9, 9), oob = 1000;
  std::unique_ptr<G> gp(H::coin(4) ? new G(GridSizes(cs, nx, ny, nz), def, oob) : new G(tr, GridSizes(cs, cs * 2, cs * 3, nx, ny, nz), def, oob)); G& g = *gp;
  std::vector<int64_t> m(tot, def);
  std::string hist = H::S("grid", nx, ny, nz);
  auto same = [&](const std::string& what) { bool ok = (int64_t)g.GetImmutableRawData().size() == tot; for (int64_t x = 0; ok && x < nx; x++) for (int64_t y = 0; y < ny; y++) for (int64_t z = 0; z < nz; z++) { auto q = g.GetIndexImmutable(x, y, z); ok = ok && q.HasValue() && q.Status() == AccessStatus::SUCCESS && q.Value() == m[(x * ny + y) * nz + z]; } H::check(ok, "contents", what); return ok; };
  if (!same("after construction " + hist)) return;
  H::check(g.GetDefaultValue() == def && g.GetOOBValue() == oob && g.IsInitialized(), "defaults", hist);
  for (int k = 0; k < steps; k++)
  {
    auto pick = [&](int64_t n) { int q = H::ri(0, 9); return q == 0 ? (int64_t)-1 : q == 1 ? n : q == 2 ? (H::coin() ? INT64_MAX : INT64_MIN) : H::ri(0, n - 1); };
    int64_t x = pick(nx), y = pick(ny), z = pick(nz), val = H::ri(-100, 100);
    const bool in = x >= 0 && y >= 0 && z >= 0 && x < nx && y < ny && z < nz; const int64_t off = in ? (x * ny + y) * nz + z : -1;
    const bool deny = H::coin(4); g.allow = [&](int64_t a, int64_t b, int64_t cc) { return !(deny && a == x && b == y && cc == z); }; g.rawok = !H::coin(4); g.asked.clear(); g.raws = 0;
    int op = H::ri(0, 15);
    std::string what = H::S(hist, "op", op, "cell", x, y, z, "denied", deny); H::at("op", what); H::ev(in);
    auto expectmut = [&](AccessStatus st) { H::check(st == (!in ? AccessStatus::OUT_OF_BOUNDS : deny ? AccessStatus::MUTABLE_ACCESS_PROHIBITED : AccessStatus::SUCCESS), "status", what, (int)st); H::check(in ? (g.asked.size() == 1 && g.asked[0] == GridIndex(x, y, z)) : g.asked.empty(), "approval-cell", what, "asked", g.asked.size(), g.asked.empty() ? 0 : g.asked[0].X(), g.asked.empty() ? 0 : g.asked[0].Y(), g.asked.empty() ? 0 : g.asked[0].Z()); };
    auto qmut = [&](GridQuery<int64_t> q) { expectmut(q.Status()); H::check(q.HasValue() == (in && !deny) && bool(q) == q.HasValue(), "has-value", what); if (q.HasValue() && in) { H::check(q.Value() == m[off], "value", what); q.Value() = val; m[off] = val; } else H::check(H::threw([&] { (void)q.Value(); }) != 0, "value-of-nothing", what); };
    const GridIndex gi(x, y, z);
    const Eigen::Vector4d loc = in ? g.GridIndexToLocation(gi) : Eigen::Vector4d(1e7, 1e7, 1e7, 1.0); const Eigen::Vector3d l3 = loc.head<3>();
    if (in) { H::check(g.LocationToGridIndex4d(loc) == gi && g.LocationToGridIndex3d(l3) == gi && g.LocationToGridIndex(l3.x(), l3.y(), l3.z()) == gi, "location-roundtrip", what); H::check(g.LocationInBounds3d(l3) && g.LocationInBounds4d(loc) && g.LocationInBounds(l3.x(), l3.y(), l3.z()), "location-in-bounds", what); }
    const int64_t d = H::coin(5) ? (H::coin() ? tot : -1) : H::ri(0, tot - 1); const bool din = d >= 0 && d < tot;
    switch (op)
    {
      case 0: { const int64_t cv = val; auto s = g.SetIndex(gi, cv); expectmut(s); if (in && !deny) m[off] = val; break; }
      case 1: { const int64_t cv = val; auto s = g.SetIndex(x, y, z, cv); expectmut(s); if (in && !deny) m[off] = val; break; }
      case 2: { auto s = g.SetIndex(gi, int64_t(val)); expectmut(s); if (in && !deny) m[off] = val; break; }
      case 3: { auto s = g.SetIndex(x, y, z, int64_t(val)); expectmut(s); if (in && !deny) m[off] = val; break; }
      case 4: qmut(g.GetIndexMutable(gi)); break;
      case 5: qmut(g.GetIndexMutable(x, y, z)); break;
      case 6: { auto q = g.GetIndexImmutable(gi); H::check(q.HasValue() == in && q.Status() == (in ? AccessStatus::SUCCESS : AccessStatus::OUT_OF_BOUNDS) && g.asked.empty(), "status", what); if (in && q.HasValue()) H::check(q.Value() == m[off], "value", what); break; }
      case 7: qmut(g.GetLocationMutable4d(loc)); break;
      case 8: { const int64_t cv = val; auto s = H::coin() ? g.SetLocation4d(loc, cv) : H::coin() ? g.SetLocation3d(l3, cv) : g.SetLocation(l3.x(), l3.y(), l3.z(), cv); expectmut(s); if (in && !deny) m[off] = val; break; }
      case 9: { auto s = H::coin() ? g.SetLocation4d(loc, int64_t(val)) : H::coin() ? g.SetLocation3d(l3, int64_t(val)) : g.SetLocation(l3.x(), l3.y(), l3.z(), int64_t(val)); expectmut(s); if (in && !deny) m[off] = val; break; }
      case 10: { auto q = H::coin() ? g.GetLocationImmutable4d(loc) : H::coin() ? g.GetLocationImmutable3d(l3) : g.GetLocationImmutable(l3.x(), l3.y(), l3.z()); H::check(q.HasValue() == in, "status", what); if (in && q.HasValue()) H::check(q.Value() == m[off], "value", what); break; }
      case 11: qmut(H::coin() ? g.GetLocationMutable3d(l3) : g.GetLocationMutable(l3.x(), l3.y(), l3.z())); break;
      case 12: { int t = H::threw([&] { if (H::coin()) g.SetDataIndex(d, int64_t(val)); else { const int64_t cv = val; g.SetDataIndex(d, cv); } }); H::check((t == 0) == (g.rawok && din), "raw-set", what, d); if (t == 0 && din) m[d] = val; break; }
      case 13: { int64_t got = 0; int t = H::threw([&] { got = g.GetDataIndexImmutable(d); }); H::check((t == 0) == din && (t || got == m[d]), "raw-get", what, d); t = H::threw([&] { g.GetDataIndexMutable(d) = val; }); H::check((t == 0) == (g.rawok && din), "raw-mutable", what, d); if (t == 0 && din) m[d] = val; break; }
      case 14: { int r = H::ri(0, 3); if (r == 0) { g.ResetWithDefault(); m.assign(tot, def); } else if (r == 1) { g.ResetWithNewValue(val); m.assign(tot, val); } else if (r == 2) { g.ResetWithNewDefault(val); def = val; m.assign(tot, val); } else { g.SetDefaultValue(val); def = val; g.SetOOBValue(val + 1); H::check(g.GetOOBValue() == val + 1, "oob-value", what); } H::check(g.GetDefaultValue() == def, "defaults", what); break; }
      case 15: { std::vector<int64_t> nd(H::coin(3) ? tot + 1 : tot); for (auto& q : nd) q = H::ri(0, 50); bool ok = g.rawok && (int64_t)nd.size() == tot; int t = H::threw([&] { g.SetRawData(nd); }); H::check((t == 0) == ok, "raw-data", what); if (t == 0 && ok) m = nd; t = H::threw([&] { g.GetMutableRawData(); }); H::check((t == 0) == g.rawok, "raw-access", what); break; }
    }
    if (!same(what)) return;
    if (H::coin(10)) { auto c2 = g.Clone(); c2->SetIndex(0, 0, 0, int64_t(12345)); if (!same(what + " after changing a clone")) return; }
  }
}
int main(int c, char** v)
{
  H::init(c, v);
  while (H::more(0.3)) run(60);
  return H::done("random operation sequences on random grids against a flat array; non-trivial: in-bounds operations");
}
