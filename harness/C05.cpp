#include "common.hpp"
#include <common_robotics_utilities/voxel_grid.hpp>
using namespace common_robotics_utilities::voxel_grid;
static bool pf(double d) { return std::isfinite(d) && d > 0; }
static bool fits(int64_t a, int64_t b, int64_t c) { __int128 p = (__int128)b * c; return p <= INT64_MAX && p * a <= INT64_MAX; }
static void good(const GridSizes& s, const std::string& in)
{
  H::check(pf(s.CellXSize()) && pf(s.CellYSize()) && pf(s.CellZSize()), "cell-sizes", in);
  H::check(s.NumXCells() > 0 && s.NumYCells() > 0 && s.NumZCells() > 0, "counts-positive", in, s.NumXCells(), s.NumYCells(), s.NumZCells());
  if (!(s.NumXCells() > 0 && s.NumYCells() > 0 && s.NumZCells() > 0)) return;
  H::check(fits(s.NumXCells(), s.NumYCells(), s.NumZCells()), "total-overflow", in);
  if (!fits(s.NumXCells(), s.NumYCells(), s.NumZCells())) return;
  H::check(s.TotalCells() == s.NumXCells() * s.NumYCells() * s.NumZCells() && s.Stride1() == s.NumYCells() * s.NumZCells() && s.Stride2() == s.NumZCells() && s.Valid(), "consistent", in);
  H::check(s.InvCellXSize() == 1.0 / s.CellXSize() && s.InvCellYSize() == 1.0 / s.CellYSize() && s.InvCellZSize() == 1.0 / s.CellZSize(), "inverse-sizes", in);
  H::check(s.XSize() == s.NumXCells() * s.CellXSize() && s.YSize() == s.NumYCells() * s.CellYSize() && s.ZSize() == s.NumZCells() * s.CellZSize(), "sizes", in);
}
static void counts(double a, double b, double c, int64_t x, int64_t y, int64_t z)
{
  const std::string in = H::S("cell sizes", a, b, c, "counts", x, y, z); H::at("ctor", in); H::ev();
  const bool ok = pf(a) && pf(b) && pf(c) && x > 0 && y > 0 && z > 0 && fits(x, y, z);
  try { GridSizes s(a, b, c, x, y, z); H::check(ok, "accepted-invalid", in); good(s, in); H::check(s.CellXSize() == a && s.CellYSize() == b && s.CellZSize() == c && s.NumXCells() == x && s.NumYCells() == y && s.NumZCells() == z, "kept", in); }
  catch (const std::invalid_argument&) { H::check(!ok, "rejected-valid", in); }
  std::vector<uint8_t> buf; auto put = [&](const void* p) { const uint8_t* q = (const uint8_t*)p; buf.insert(buf.end(), q, q + 8); };
  put(&a); put(&b); put(&c); put(&x); put(&y); put(&z);
  auto d = GridSizes::Deserialize(buf, 0); H::check(d.BytesRead() == 48, "restored-bytes", in);
  if (d.Value().Valid()) { H::check(ok, "restored-invalid", in); good(d.Value(), in + " restored"); H::check(d.Value().NumXCells() == x && d.Value().NumYCells() == y && d.Value().NumZCells() == z && d.Value().CellXSize() == a && d.Value().CellYSize() == b && d.Value().CellZSize() == c, "restored-kept", in); }
  else { H::check(!ok, "restored-rejected", in); H::check(d.Value().TotalCells() == 0 && d.Value().NumXCells() == 0 && d.Value().NumYCells() == 0 && d.Value().NumZCells() == 0, "restored-zeroed", in); }
  if (a == b && b == c) { bool t = false; try { GridSizes s(a, x, y, z); good(s, in + " uniform"); H::check(s.NumXCells() == x && s.NumYCells() == y && s.NumZCells() == z, "uniform-kept", in); } catch (const std::invalid_argument&) { t = true; } H::check(t == !ok, "uniform", in); }
}
static void sizes(double a, double b, double c, double x, double y, double z)
{
  const std::string in = H::S("cell sizes", a, b, c, "sizes", x, y, z); H::at("ctor", in); H::ev();
  bool ok = pf(a) && pf(b) && pf(c) && pf(x) && pf(y) && pf(z);
  if (ok) { const double n[3] = {std::ceil(x / a), std::ceil(y / b), std::ceil(z / c)}; for (double q : n) ok = ok && q >= 1 && q < 9223372036854775808.0; ok = ok && fits((int64_t)n[0], (int64_t)n[1], (int64_t)n[2]); }
  auto chk = [&](const GridSizes& s) { H::check(ok, "accepted-invalid", in); good(s, in); if (ok) { H::check(s.NumXCells() == (int64_t)std::ceil(x / a) && s.NumYCells() == (int64_t)std::ceil(y / b) && s.NumZCells() == (int64_t)std::ceil(z / c), "covers-dimension", in, s.NumXCells(), s.NumYCells(), s.NumZCells()); H::check(s.CellXSize() == a && s.CellYSize() == b && s.CellZSize() == c, "kept", in); } };
  try { chk(GridSizes(a, b, c, x, y, z)); } catch (const std::invalid_argument&) { H::check(!ok, "rejected-valid", in); }
  if (a == b && b == c) { try { chk(GridSizes(a, x, y, z)); } catch (const std::invalid_argument&) { H::check(!ok, "rejected-valid", in + " uniform"); } }
}
int main(int c, char** v)
{
  H::init(c, v);
  const double inf = INFINITY, nan = NAN;
  const std::vector<double> ds = {0.25, 1.0, 3.7, 0.0, -0.0, -1.0, inf, -inf, nan, 5e-324, 1e-310, 2.2250738585072014e-308, 1e300, 1.7976931348623157e308, 1e9, 9223372036854775807.0};
  const std::vector<int64_t> is = {1, 2, 5, 0, -1, -5, INT64_MAX, INT64_MIN, 3037000500, 1LL << 32, 1LL << 21, 2097152, 1LL << 62, 2147483648LL};
  for (double d : ds) for (int64_t x : is) for (int64_t y : is) for (int64_t z : is) { counts(d, d, d, x, y, z); }
  for (double a : ds) for (double b : ds) for (double e : ds) { counts(a, b, e, 2, 3, 4); sizes(a, b, e, 1.0, 2.0, 3.0); sizes(1.0, 2.0, 3.0, a, b, e); sizes(a, a, a, a, b, e); sizes(a, b, e, e, a, b); }
  { GridSizes d; H::check(!d.Valid() && d.TotalCells() == 0, "default", "default constructed"); }
  while (H::more(0.2)) { auto pd = [&]() { return H::coin(6) ? ds[H::ri(0, ds.size() - 1)] : std::exp(H::rd(-30, 30)); }; auto pi = [&]() { return H::coin(6) ? is[H::ri(0, is.size() - 1)] : (int64_t)(H::r64() >> H::ri(30, 63)); };
    counts(pd(), pd(), pd(), pi(), pi(), pi()); double u = pd(); counts(u, u, u, pi(), pi(), pi()); sizes(pd(), pd(), pd(), pd(), pd(), pd()); sizes(u, u, u, pd(), pd(), pd()); }
  return H::done("all combinations of edge doubles and edge counts, then random; every constructor and restoration from bytes");
}
