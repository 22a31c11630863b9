#include "common.hpp"
#include <common_robotics_utilities/simple_dtw.hpp>
using namespace common_robotics_utilities::simple_dtw;
struct B { double x; };
using VA = std::vector<double>; using VB = std::vector<B>; using DTW = SimpleDTW<double, B, VA, VB>;
int main(int c, char** v)
{
  H::init(c, v); const double inf = std::numeric_limits<double>::infinity();
  while (H::more(0.4) && H::failed.empty())
  {
    std::string hist; const int n0 = H::ri(0, 9), m0 = H::ri(0, 9); DTW e = H::coin(3) ? DTW() : DTW(n0, m0); hist = H::S("evaluator for", n0, m0);
    for (int k = H::ri(1, 5); k > 0 && H::failed.empty(); k--)
    {
      const int n = H::ri(0, H::coin(9) ? 40 : 6), m = H::ri(0, H::coin(9) ? 40 : 6), how = H::ri(0, 4); std::vector<std::vector<double>> d(n, std::vector<double>(m)); VA a(n); VB b(m); for (int i = 0; i < n; i++) a[i] = i; for (int j = 0; j < m; j++) b[j].x = j;
      for (auto& r : d) for (auto& x : r) x = how == 0 ? H::ri(0, 2) : how == 1 ? H::rd(0, 9) : how == 2 ? H::ri(0, 1) * 1e-3 : how == 3 ? (H::coin(6) ? inf : H::ri(0, 4)) : H::ri(1, 9) * 1e6;
      std::function<double(const double&, const B&)> f = [&](const double& x, const B& y) { return d[(int)x][(int)y.x]; }; std::string ctx = hist + H::S("sizes", n, m); for (auto& r : d) ctx += H::SV(r); H::at("dtw", ctx); hist += H::S("then", n, m);
      if (n == 0 || m == 0) { H::check(H::threw([&] { e.EvaluateWarpingCost(a, b, f); }) == 1 && H::threw([&] { EvaluateWarpingCost<double, B, VA, VB>(a, b, f); }) == 1, "empty", ctx); continue; }
      std::vector<std::vector<double>> t(n + 1, std::vector<double>(m + 1, inf)); t[0][0] = 0; for (int i = 1; i <= n; i++) for (int j = 1; j <= m; j++) t[i][j] = d[i - 1][j - 1] + std::min({t[i - 1][j], t[i][j - 1], t[i - 1][j - 1]});
      const double want = t[n][m], got = e.EvaluateWarpingCost(a, b, f), once = EvaluateWarpingCost<double, B, VA, VB>(a, b, f); auto near = [&](double x) { return x == want || std::abs(x - want) <= 1e-9 * want; };
      H::check(near(got), "evaluator", ctx, "got", got, "want", want); H::check(near(once), "function", ctx, "got", once, "want", want); H::ev(n > 1 && m > 1);
    }
  }
  return H::done("evaluators reused for up to 5 pairs of sequences of up to 40 items with tied, infinite, tiny and large distances, against the full recurrence");
}
