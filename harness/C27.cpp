#include "common.hpp"
#include <common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp>
#include <array>
#include <map>
using namespace common_robotics_utilities; using namespace common_robotics_utilities::voxel_grid;
using Base = DynamicSpatialHashedVoxelGridBase<int64_t>; using Grid = DynamicSpatialHashedVoxelGrid<int64_t>; using V4 = Eigen::Vector4d; using FS = DSHVGFoundStatus; using SS = DSHVGSetStatus; using ST = DSHVGSetType;
struct G : public Base
{
  std::vector<V4> asked; bool allow = true;
  std::unique_ptr<Base> DoClone() const override { return std::unique_ptr<Base>(new G(*this)); }
  uint64_t DerivedSerializeSelf(std::vector<uint8_t>&, const serialization::Serializer<int64_t>&) const override { return 0; }
  uint64_t DerivedDeserializeSelf(const std::vector<uint8_t>&, const uint64_t, const serialization::Deserializer<int64_t>&) override { return 0; }
  bool OnMutableAccess(const V4& l) override { asked.push_back(l); return allow; }
  bool OnMutableRawAccess() override { return true; }
  G(const Eigen::Isometry3d& t, const GridSizes& s, int64_t d) : Base(t, s, d, 4) {}
  G(const GridSizes& s, int64_t d) : Base(s, d, 4) {}
};
using Key = std::array<int64_t, 3>;
struct Model { bool cells = false; std::vector<int64_t> v; };
// coordinates and sizes that arithmetic represents exactly
static bool chk(bool ok, const char* n, const std::string& w, int64_t a = 0, int64_t b = 0) { H::check(ok, n, w, a, b); return ok; }
static void exact(int steps)
{
  const double cs[] = {0.25, 0.5, 1.0, 2.0}; double c[3]; int64_t n[3]; for (int a = 0; a < 3; a++) { c[a] = cs[H::ri(0, 3)]; n[a] = H::ri(1, 5); } const int64_t tot = n[0] * n[1] * n[2];
  Eigen::Isometry3d tr = Eigen::Isometry3d::Identity(); const bool moved = H::coin(); if (moved) { tr.translation() = Eigen::Vector3d(H::ri(-5, 5), H::ri(-5, 5), H::ri(-5, 5)); if (H::coin()) { Eigen::Matrix3d m; m << 0, -1, 0, 1, 0, 0, 0, 0, 1; tr.linear() = m; } }
  int64_t def = H::ri(-9, 9); const GridSizes sz(c[0], c[1], c[2], n[0], n[1], n[2]); std::unique_ptr<G> gp(moved || H::coin() ? new G(tr, sz, def) : new G(sz, def)); G& g = *gp; std::map<Key, Model> m;
  const std::string hist = H::S("grid", n[0], n[1], n[2], "cells", c[0], c[1], c[2], "moved", moved);
  auto total = [&](const std::string& what) { return chk(g.GetImmutableInternalChunks().size() == m.size(), "chunks", what, g.GetImmutableInternalChunks().size(), m.size()); };
  auto locof = [&](const Key& ck, const Key& ce, const double* fr) { V4 p(0, 0, 0, 1); for (int a = 0; a < 3; a++) p(a) = (double)ck[a] * c[a] * (double)n[a] + ((double)ce[a] + fr[a]) * c[a]; return V4(tr * p); };
  auto idx = [&](const Key& e) { return (e[0] * n[1] + e[1]) * n[2] + e[2]; };
  auto agree = [&](const Key& ck, const Key& ce, const V4& p, const std::string& what)
  {
    auto q = H::coin() ? g.GetLocationImmutable4d(p) : H::coin() ? g.GetLocationImmutable3d(p.head<3>()) : g.GetLocationImmutable(p.x(), p.y(), p.z()); auto it = m.find(ck);
    if (it == m.end()) return chk(q.FoundStatus() == FS::NOT_FOUND && !q.HasValue(), "unknown", what, (int)q.FoundStatus());
    return chk(q.HasValue() && q.FoundStatus() == (it->second.cells ? FS::FOUND_IN_CELL : FS::FOUND_IN_CHUNK) && q.Value() == it->second.v[it->second.cells ? idx(ce) : 0], "read", what, (int)q.FoundStatus(), q.HasValue() ? q.Value() : -1);
  };
  for (int k = 0; k < steps; k++)
  {
    Key ck, ce; double fr[3]; const double frs[] = {0, 0.25, 0.5, 0.75, 0.984375}; for (int a = 0; a < 3; a++) { ck[a] = H::ri(-2, 1); ce[a] = H::ri(0, n[a] - 1); fr[a] = frs[H::ri(0, 4)]; }
    const V4 p = locof(ck, ce, fr); const Eigen::Vector3d p3 = p.head<3>(); int64_t val = H::ri(-100, 100); g.allow = !H::coin(6); g.asked.clear(); int op = H::ri(0, 9); const std::string what = H::S(hist, "step", k, "op", op, "chunk", ck[0], ck[1], ck[2], "cell", ce[0], ce[1], ce[2], "allowed", g.allow); H::at("op", what); H::ev(op > 3); auto it = m.find(ck);
    auto asked = [&](const std::string& w) { const V4 want = tr.inverse() * p; bool ok = !g.asked.empty(); for (auto& a : g.asked) ok = ok && a == want; H::check(ok, "approval", w, g.asked.size()); };
    try
    {
      if (op < 4) { if (!agree(ck, ce, p, what)) return; H::check(g.asked.empty(), "approval", what); }
      else if (op == 4)
      {
        auto q = H::coin() ? g.GetLocationMutable4d(p) : H::coin() ? g.GetLocationMutable3d(p3) : g.GetLocationMutable(p.x(), p.y(), p.z());
        FS want = it == m.end() ? FS::NOT_FOUND : !g.allow ? FS::MUTABLE_ACCESS_PROHIBITED : it->second.cells ? FS::FOUND_IN_CELL : FS::FOUND_IN_CHUNK; H::check(q.FoundStatus() == want && q.HasValue() == (it != m.end() && g.allow), "mutable", what, (int)q.FoundStatus());
        if (it != m.end()) asked(what); if (q.HasValue() && it != m.end()) { int64_t& r = it->second.v[it->second.cells ? idx(ce) : 0]; H::check(q.Value() == r, "mutable-value", what); q.Value() = val; r = val; }
      }
      else if (op < 9)
      {
        const ST st = op < 8 ? ST::SET_CELL : ST::SET_CHUNK; SS s; const int64_t cv = val; int w = H::ri(0, 5);
        if (w == 0) s = g.SetLocation4d(p, st, cv); else if (w == 1) s = g.SetLocation4d(p, st, int64_t(val)); else if (w == 2) s = g.SetLocation3d(p3, st, cv); else if (w == 3) s = g.SetLocation3d(p3, st, int64_t(val)); else if (w == 4) s = g.SetLocation(p.x(), p.y(), p.z(), st, cv); else s = g.SetLocation(p.x(), p.y(), p.z(), st, int64_t(val));
        H::check(s == (!g.allow ? SS::MUTABLE_ACCESS_PROHIBITED : st == ST::SET_CELL ? SS::SET_CELL : SS::SET_CHUNK), "status", what, (int)s); asked(what);
        if (g.allow) { Model& o = m[ck]; if (st == ST::SET_CHUNK) { o.cells = false; o.v.assign(1, val); } else { if (!o.cells) { const int64_t b = o.v.empty() ? def : o.v[0]; o.v.assign(tot, b); o.cells = true; } o.v[idx(ce)] = val; } }
      }
      else { def = val; g.SetDefaultValue(val); H::check(g.GetDefaultValue() == val, "default", what); }
      if (!total(what)) return;
    }
    catch (const std::exception& e) { H::check(false, "throws", what, e.what()); return; }
  }
  // every cell of every chunk
  for (int64_t x = -2; x <= 1; x++) for (int64_t y = -2; y <= 1; y++) for (int64_t z = -2; z <= 1; z++) for (int64_t i = 0; i < n[0]; i++) for (int64_t j = 0; j < n[1]; j++) for (int64_t l = 0; l < n[2]; l++) { double h[3] = {0.5, 0.25, 0.75}; Key ck{x, y, z}, ce{i, j, l}; if (!agree(ck, ce, locof(ck, ce, h), hist + " at the end")) return; }
  for (auto& e : g.GetImmutableInternalChunks())
  {
    V4 b(0, 0, 0, 1), ctr(0, 0, 0, 1); bool ok = true; Key ck; for (int a = 0; a < 3; a++) { const double s = c[a] * (double)n[a]; ck[a] = (int64_t)std::llround(e.first.Base()(a) / s); ok = ok && e.first.Base()(a) == (double)ck[a] * s; ctr(a) = e.first.Base()(a) + s / 2; } ok = ok && m.count(ck);
    H::check(ok && e.second.GetChunkCenterInGridFrame() == ctr, "regions", hist);
    if (ok && m[ck].cells) { GridIndex gi(H::ri(0, n[0] - 1), H::ri(0, n[1] - 1), H::ri(0, n[2] - 1)); H::check(e.second.GetIndexImmutable(gi).Value() == m[ck].v[idx(Key{gi.X(), gi.Y(), gi.Z()})], "chunk-index", hist); V4 l = e.second.GetCellLocationInGridFrame(gi); auto q = g.GetLocationImmutable4d(tr * l); H::check(q.HasValue() && q.Value() == m[ck].v[idx(Key{gi.X(), gi.Y(), gi.Z()})], "cell-location", hist); }
  }
}
// coordinates at and next to the boundaries of chunks and cells: an access finds the value stored through the same location, and nothing is rejected
static void boundary()
{
  const double cs[] = {1.0, 0.1, 0.3, 1.0 / 3.0, 0.7, 1e-3}; double c[3]; int64_t n[3]; V4 p(0, 0, 0, 1); for (int a = 0; a < 3; a++) { c[a] = cs[H::ri(0, 5)]; n[a] = H::ri(1, 7); const double s = c[a] * (double)n[a]; double x = H::coin() ? (double)H::ri(-40, 40) * s : (double)H::ri(-200, 200) * c[a]; int w = H::ri(0, 5); if (w == 1) x = std::nextafter(x, 1e9); if (w == 2) x = std::nextafter(x, -1e9); if (w == 3) x = -1e-20; if (w == 4) x = -5e-324; if (w == 5) x -= std::abs(x) * 1e-16; p(a) = x; }
  Eigen::Isometry3d tr = Eigen::Isometry3d::Identity(); if (H::coin(3)) tr = Eigen::Translation3d(H::rd(-3, 3), H::rd(-3, 3), H::rd(-3, 3)) * Eigen::AngleAxisd(H::rd(-3, 3), Eigen::Vector3d(1, 2, 3).normalized()); Grid g(tr, GridSizes(c[0], c[1], c[2], n[0], n[1], n[2]), 5, 1);
  std::ostringstream o; o.precision(20); o << "cells " << c[0] << " " << c[1] << " " << c[2] << " counts " << n[0] << " " << n[1] << " " << n[2] << " location " << p.transpose(); const std::string what = o.str(); H::at("boundary", what); H::ev(true);
  try
  {
    const bool chunk = H::coin(); H::check(g.GetLocationImmutable4d(p).FoundStatus() == FS::NOT_FOUND, "boundary-unknown", what); SS s = g.SetLocation4d(p, chunk ? ST::SET_CHUNK : ST::SET_CELL, 7); H::check(s == (chunk ? SS::SET_CHUNK : SS::SET_CELL), "boundary-set", what); auto q = g.GetLocationImmutable4d(p); H::check(q.HasValue() && q.Value() == 7 && q.FoundStatus() == (chunk ? FS::FOUND_IN_CHUNK : FS::FOUND_IN_CELL), "boundary-read", what); if (chunk) { g.SetLocation4d(p, ST::SET_CELL, 8); auto r = g.GetLocationMutable4d(p); H::check(r.HasValue() && r.Value() == 8, "boundary-read", what); }
    H::check(g.GetImmutableInternalChunks().size() == 1, "boundary-chunks", what); const V4 l = tr.inverse() * p; for (auto& e : g.GetImmutableInternalChunks()) for (int a = 0; a < 3; a++) { const double sz = c[a] * (double)n[a]; const double off = l(a) - e.first.Base()(a); H::check(off >= -1e-9 * (1 + std::abs(l(a))) && off <= sz + 1e-9 * (1 + std::abs(l(a))), "boundary-region", what, off, sz); }
  }
  catch (const std::exception& e) { H::check(false, "boundary-throws", what, e.what()); }
}
int main(int c, char** v)
{
  H::init(c, v);
  { GridSizes bad; H::check(H::threw([&] { Grid g(bad, 0, 1); }), "invalid-sizes", "default-constructed sizes"); }
  while (H::more(0.3)) { exact(40); for (int k = 0; k < 20; k++) boundary(); }
  return H::done("random sequences of cell and chunk writes and lookups at exactly representable locations against a map of chunks, and lookups and writes at and next to chunk and cell boundaries; non-trivial: writes");
}
