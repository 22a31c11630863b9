#include "common.hpp"
#include <common_robotics_utilities/math.hpp>
// SRC: math.cpp
using namespace common_robotics_utilities::math;
using LD = long double; static const LD TWO = 2 * (LD)M_PI;
static LD rep(LD v, LD lo) { LD r = std::fmod(v - lo, TWO); if (r < 0) r += TWO; return r + lo; }   // exact enough reference
static bool same(double a, LD b, LD tol) { LD d = std::fabs(std::fmod((LD)a - b, TWO)); return d <= tol || TWO - d <= tol; }
static double angle() { switch (H::ri(0, 5)) { case 0: return H::rd(-3.2, 3.2); case 1: return H::rd(-30, 30); case 2: return H::ri(-8, 8) * M_PI / 2; case 3: return H::ri(-9, 9) * M_PI + H::ri(-2, 2) * 1e-15; case 4: return H::rd(-1, 1) * 1e6; default: return std::nextafter(H::ri(-3, 3) * M_PI, H::coin() ? 1e9 : -1e9); } }
int main(int c, char** v)
{
  H::init(c, v);
  while (H::more(0.4) && H::failed.empty())
  {
    const double a = angle(), b = angle(), x = angle(), t = H::coin(4) ? H::ri(-1, 2) : H::rd(-0.2, 1.2); const auto ctx = H::S(a, b, x, t); H::at("angles", ctx); const LD tol = 1e-9L;
    const double w = EnforceContinuousRevoluteBounds(a); H::check(w >= -M_PI && w <= M_PI && same(w, a, tol), "wrap", ctx, w); if (a >= -M_PI && a < M_PI) H::check(std::abs(w - a) <= 1e-15 || (std::abs(a) > 3.14159265358979 && same(w, a, 1e-14L)), "unchanged", ctx, w);
    const double d = ContinuousRevoluteSignedDistance(a, b); H::check(d >= -M_PI && d <= M_PI && same(d, (LD)b - a, tol), "signed distance", ctx, d); H::check(ContinuousRevoluteDistance(a, b) == std::abs(d), "distance", ctx);
    const double s = AddContinuousRevoluteValues(a, b); H::check(s >= -M_PI && s <= M_PI && same(s, (LD)a + b, tol), "sum", ctx, s);
    const double g = GetContinuousRevoluteRange(a, b); H::check(g >= 0 && g <= 2 * M_PI && same(g, (LD)b - a, tol), "range", ctx, g);
    const double in = InterpolateContinuousRevolute(a, b, t), tc = t < 0 ? 0 : t > 1 ? 1 : t; H::check(in >= -M_PI && in <= M_PI && same(in, a + (LD)d * tc, tol), "interpolate", ctx, in);
    const LD ahead = rep((LD)x - a, 0), span = rep((LD)b - a, 0); const double r = H::rd(0, 6.5); auto clear = [](LD p, LD q) { return std::fabs(p - q) > 1e-9L && p > 1e-9L && p < TWO - 1e-9L && q > 1e-9L && q < TWO - 1e-9L; };
    if (clear(ahead, r)) H::check(CheckInContinuousRevoluteRange(a, r, x) == (ahead <= r), "in range", ctx, r); if (clear(ahead, span)) H::check(CheckInContinuousRevoluteBounds(a, b, x) == (ahead <= span), "in bounds", ctx); H::ev(std::abs(a) > 3);
  }
  return H::done("angles inside and far outside one turn, at and one step off multiples of pi and pi/2, against a long double reference");
}
