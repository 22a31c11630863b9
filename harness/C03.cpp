#include "common.hpp"
#include <common_robotics_utilities/voxel_grid.hpp>
using namespace common_robotics_utilities::voxel_grid;
static void cell(const GridSizes& s, int64_t x, int64_t y, int64_t z)
{
  const int64_t nx = s.NumXCells(), ny = s.NumYCells(), nz = s.NumZCells();
  const std::string in = H::S("counts", nx, ny, nz, "cell", x, y, z); H::ev(nx > 1 && ny > 1 && nz > 1);
  const bool inb = x >= 0 && y >= 0 && z >= 0 && x < nx && y < ny && z < nz;
  H::check(s.IndexInBounds(x, y, z) == inb && s.IndexInBounds(GridIndex(x, y, z)) == inb, "in-bounds", in);
  if (!inb) return;
  const int64_t d = s.GetDataIndex(x, y, z);
  H::check(d == s.GetDataIndex(GridIndex(x, y, z)), "overloads-agree", in);
  H::check(d >= 0 && (__int128)d < (__int128)nx * ny * nz && s.TotalCells() == nx * ny * nz, "offset-range", in, "offset", d);
  H::check(s.GetGridIndexFromDataIndex(d) == GridIndex(x, y, z), "cell-roundtrip", in, "offset", d);
}
static void off(const GridSizes& s, int64_t d)
{
  const GridIndex g = s.GetGridIndexFromDataIndex(d); H::ev();
  const std::string in = H::S("counts", s.NumXCells(), s.NumYCells(), s.NumZCells(), "offset", d, "->", g.X(), g.Y(), g.Z());
  H::check(s.IndexInBounds(g), "offset-in-bounds", in); H::check(s.GetDataIndex(g) == d, "offset-roundtrip", in);
}
int main(int c, char** v)
{
  H::init(c, v); H::at("grid", "small grids");
  for (int64_t nx = 1; nx <= 5; nx++) for (int64_t ny = 1; ny <= 6; ny++) for (int64_t nz = 1; nz <= 7; nz++)
  {
    GridSizes s(1.0, nx, ny, nz); std::set<int64_t> seen;
    for (int64_t x = -1; x <= nx; x++) for (int64_t y = -1; y <= ny; y++) for (int64_t z = -1; z <= nz; z++) cell(s, x, y, z);
    for (int64_t x = 0; x < nx; x++) for (int64_t y = 0; y < ny; y++) for (int64_t z = 0; z < nz; z++) seen.insert(s.GetDataIndex(x, y, z));
    H::check((int64_t)seen.size() == nx * ny * nz, "distinct-offsets", nx, ny, nz);
    for (int64_t d = 0; d < nx * ny * nz; d++) off(s, d);
    VoxelGrid<int> g(s, 0);
    for (int64_t d = 0; d < nx * ny * nz; d++) { auto i = g.DataIndexToGridIndex(d); H::check(g.GridIndexToDataIndex(i) == d && g.GridIndexToDataIndex(i.X(), i.Y(), i.Z()) == d && g.IndexInBounds(i) && (int64_t)g.HashDataIndex(i) == d && (int64_t)g.HashDataIndex(i.X(), i.Y(), i.Z()) == d, "grid-forwards", nx, ny, nz, d); }
  }
  H::at("grid", "large random grids");
  while (H::more(0.2)) for (int k = 0; k < 500; k++)
  {
    int64_t n[3]; __int128 p = 1; for (auto& a : n) { a = 1 + (int64_t)(H::r64() >> H::ri(20, 63)); p *= a; if (p > INT64_MAX) break; }
    if (p > INT64_MAX || n[0] < 1 || n[1] < 1 || n[2] < 1) continue;
    p = (__int128)n[0] * n[1] ; if (p > INT64_MAX || p * n[2] > INT64_MAX) continue;
    GridSizes s(0.5, n[0], n[1], n[2]);
    for (int j = 0; j < 4; j++) { auto pick = [&](int64_t m) { int q = H::ri(0, 5); return q == 0 ? (int64_t)-1 : q == 1 ? m : q == 2 ? m - 1 : q == 3 ? (int64_t)0 : (int64_t)(H::r64() >> 1) % m; }; cell(s, pick(n[0]), pick(n[1]), pick(n[2])); }
    off(s, (int64_t)(H::r64() >> 1) % (n[0] * n[1] * n[2])); off(s, n[0] * n[1] * n[2] - 1);
  }
  return H::done("exhaustive grids up to 5x6x7 plus random large grids and boundary cells; non-trivial: every axis has more than one cell");
}
