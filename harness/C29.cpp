#include "common.hpp"
#include <common_robotics_utilities/simple_prngs.hpp>
#include <common_robotics_utilities/random_rotation_generator.hpp>
#include <common_robotics_utilities/gaussian_distributions.hpp>
using namespace common_robotics_utilities;
static uint64_t any() { switch (H::ri(0, 4)) { case 0: return H::ri(0, 3); case 1: return ~0ull - H::ri(0, 3); default: return H::rng(); } }
// a generator used arbitrarily, then re-seeded, against a fresh one; discards against single draws
template <class G> static void prng(const char* nm)
{
  const uint64_t s0 = any(), s = any(); G used(s0); std::string log; for (int k = H::ri(0, 4); k--;) { const int n = H::ri(0, 40); if (H::coin()) { for (int i = 0; i < n; i++) used(); log += H::S(n, "draws "); } else if (H::coin()) { used.discard(n); log += H::S("discard", n, " "); } else { const uint64_t t = any(); used.seed(t); log += "seed "; } }
  const auto ctx = H::S(nm, "first seed", s0, log, "then seed", s); H::at("streams", ctx); used.seed(s); G fresh(s); const int n = H::ri(1, 50); for (int i = 0; i < n; i++) { const auto a = used(), b = fresh(); H::check(a == b, H::S("re-seeding reproduces the stream of", nm).c_str(), ctx, "value", i); H::check(a >= G::min() && a <= G::max(), "declared range", ctx); if (a != b) return; }
  G x(s), y(s); for (int r = 0; r < 3; r++) { const int m = H::coin(4) ? 0 : H::ri(0, 70); x.discard(m); for (int i = 0; i < m; i++) y(); if (H::coin()) { x(); y(); } G z = x; H::check(z() == y(), H::S("discarding is drawing", nm).c_str(), ctx, m); x(); } H::ev(n > 20);
}
int main(int c, char** v)
{
  H::init(c, v);
  while (H::more(0.35) && H::failed.empty())
  {
    prng<simple_prngs::SplitMix64PRNG>("SplitMix64"); prng<simple_prngs::XorShift128PlusPRNG>("XorShift128Plus"); prng<simple_prngs::XorShift1024StarPRNG>("XorShift1024Star");
    if (H::coin(4)) { const uint64_t s = any(); std::mt19937_64 g(s), h(s); random_rotation_generator::RandomRotationGenerator a, b; const auto ctx = H::S("rotation, seed", s); H::at("rotations", ctx);
      for (int i = 0; i < 5; i++) { const auto q = a.GetQuaternion(g), p = b.GetQuaternion(h); H::check(q.coeffs() == p.coeffs(), "rotation reproducible", ctx); H::check(std::abs(q.norm() - 1) < 1e-12, "unit quaternion", ctx); const auto w = a.GetRawQuaternion(g), z = b.GetRawQuaternion(h); H::check(w == z && w.size() == 4, "rotation reproducible", ctx); double t = 0; for (double e : w) t += e * e; H::check(std::abs(t - 1) < 1e-12, "unit quaternion", ctx);
        const Eigen::Vector3d e = a.GetEulerAngles(g), f = b.GetEulerAngles(h); H::check(e == f, "rotation reproducible", ctx); const auto k = a.GetRawEulerAngles(g), l = b.GetRawEulerAngles(h); H::check(k == l && k.size() == 3, "rotation reproducible", ctx); for (auto u : {std::vector<double>{e(0), e(1), e(2)}, k}) H::check(std::abs(u[0]) <= M_PI && std::abs(u[2]) <= M_PI && u[1] >= 0 && u[1] <= 2 * M_PI, "Euler angles within a turn", ctx); } }
    if (H::coin(4)) { const double inf = std::numeric_limits<double>::infinity(), mean = H::coin(3) ? 0 : H::rd(-20, 20), sd = H::coin(8) ? 0 : H::rd(0.1, 4), u = sd == 0 ? 1 : sd; double lo = mean + u * H::rd(-2.5, 2.5), hi = lo + u * (H::coin() ? H::rd(0.02, 0.4) : H::rd(0.4, 6)); if (sd != 0 && H::coin(4)) { if (H::coin()) lo = -inf; else hi = inf; } if (sd == 0) lo = mean - 1, hi = mean + 1;
      { const auto ctx = H::S("mean", mean, "stddev", sd, "bounds", lo, hi); H::at("truncated normal", ctx); std::mt19937_64 g(any()); gaussian_distributions::TruncatedGaussianDistribution d(mean, sd, lo, hi); const double tol = 1e-12 * (1 + std::abs(mean) + u); for (int i = 0; i < 8; i++) { const double x = d(g); H::check(x >= lo - tol && x <= hi + tol, "truncated sample within its bounds", ctx, x); } } }
  }
  return H::done("three generators: random histories of draws, discards and re-seedings against a freshly built one; rotations from equal states; truncated normals with bounds inside, beside and beyond the mean, finite or not");
}
