#include "common.hpp"
#include <common_robotics_utilities/simple_hausdorff_distance.hpp>
using namespace common_robotics_utilities; namespace HD = simple_hausdorff_distance; using parallelism::DegreeOfParallelism;
struct B { double x; };
int main(int c, char** v)
{
  H::init(c, v); const std::vector<int> threads = {1, 2, 3, 4, 7, 16}; const double inf = std::numeric_limits<double>::infinity();
  while (H::more(0.4) && H::failed.empty())
  {
    const int n = H::coin(10) ? H::ri(0, 90) : H::ri(0, 6), m = H::coin(10) ? H::ri(0, 90) : H::ri(0, 6), how = H::ri(0, 5); Eigen::MatrixXd d(n, m); std::vector<double> a(n); std::vector<B> b(m); for (int i = 0; i < n; i++) a[i] = i; for (int j = 0; j < m; j++) b[j].x = j;
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) d(i, j) = how == 0 ? H::ri(0, 3) : how == 1 ? H::rd(0, 9) : how == 2 ? (H::coin(3) ? inf : H::rd(0, 1)) : how == 3 ? (i == n - 1 ? 50 + j : H::rd(0, 40)) : how == 4 ? (i == 0 ? 50 - j : H::rd(0, 1e-300)) : inf;
    std::function<double(const double&, const B&)> f = [&](const double& x, const B& y) { return d((int)x, (int)y.x); }; const DegreeOfParallelism p(threads[H::ri(0, 5)]); std::ostringstream os; os << d; std::string ctx = H::S("sizes", n, m, "threads", p.GetNumThreads(), os.str()); H::at("hausdorff", ctx);
    auto all = [&](const std::string& s) {
      using VB = std::vector<B>; using VA = std::vector<double>; Eigen::MatrixXd w = H::coin() ? Eigen::MatrixXd(Eigen::MatrixXd::Zero(n + 1, m)) : H::coin() ? Eigen::MatrixXd(Eigen::MatrixXd::Zero(n, m + 1)) : Eigen::MatrixXd(Eigen::MatrixXd::Zero(m + (n == m), n));
      std::vector<std::pair<std::string, std::function<double(bool)>>> fs = {{"function", [&](bool) { return HD::ComputeDistance<double, B, VA, VB>(a, b, f, p); }}, {"matrix", [&](bool x) { return HD::ComputeDistance<double, B, VA, VB>(a, b, x ? w : d, p); }},
        {"serial-function", [&](bool) { return HD::internal::ComputeDistanceSerial<double, B, VA, VB>(a, b, f); }}, {"serial-matrix", [&](bool x) { return HD::internal::ComputeDistanceSerial<double, B, VA, VB>(a, b, x ? w : d); }},
        {"parallel-function", [&](bool) { return HD::internal::ComputeDistanceParallel<double, B, VA, VB>(a, b, f, p); }}, {"parallel-matrix", [&](bool x) { return HD::internal::ComputeDistanceParallel<double, B, VA, VB>(a, b, x ? w : d, p); }}};
      double want = 0; for (int i = 0; i < n; i++) { double r = inf; for (int j = 0; j < m; j++) r = std::min(r, d(i, j)); want = std::max(want, r); }
      for (auto& [k, g] : fs)
      {
        if (n == 0 || m == 0) { H::check(H::threw([&, &g = g] { g(false); }) == 1, k + "-empty" + s, ctx); continue; }
        const double r = g(false); H::check(r == want, k + s, ctx, "got", r, "want", want); if (k.find("matrix") != std::string::npos) H::check(H::threw([&, &g = g] { g(true); }) == 1, k + "-wrong-size" + s, ctx, "given", w.rows(), w.cols());
      } };
    all("");
    if (H::coin(4))
    {
#pragma omp parallel num_threads(2)
      {
#pragma omp single
        all("-nested");
      }
    }
    H::ev(n > 1 && m > 1);
  }
  return H::done("random distance matrices of up to 90 x 90 (ties, infinite and tiny distances), as functions and matrices, serial and with up to 16 threads, also inside a parallel region, against the definition");
}
