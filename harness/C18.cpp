#include "common.hpp"
#include <common_robotics_utilities/simple_knearest_neighbors.hpp>
using namespace common_robotics_utilities; using namespace common_robotics_utilities::simple_knearest_neighbors; using parallelism::DegreeOfParallelism;
using R = std::vector<IndexAndDistance>;
static std::vector<double> items; static double cur; static std::function<double(const double&, const double&)> dist = [](const double& a, const double& b) { return std::abs(a - b); };
static void examine(const R& r, size_t a, size_t b, int64_t K, const std::string& key, const std::string& ctx)
{
  std::vector<double> d; for (size_t i = a; i < b; i++) d.push_back(dist(items[i], cur)); std::sort(d.begin(), d.end()); const size_t want = std::min<size_t>(b - a, static_cast<size_t>(K));
  H::check(r.size() == want, key + "-size", ctx, "got", r.size(), "want", want); std::set<int64_t> seen; std::vector<double> got; bool ok = true;
  for (auto& e : r) { ok &= e.Index() >= (int64_t)a && e.Index() < (int64_t)b && seen.insert(e.Index()).second; if (ok) ok = e.Distance() == dist(items[e.Index()], cur); got.push_back(e.Distance()); }
  H::check(ok, key + "-entries", ctx); std::sort(got.begin(), got.end()); bool least = got.size() <= d.size(); for (size_t k = 0; least && k < got.size(); k++) least = got[k] == d[k]; H::check(least, key + "-not-the-nearest", ctx, "got", H::SV(got));
}
int main(int c, char** v)
{
  H::init(c, v); const std::vector<int> threads = {1, 2, 3, 4, 7, 16};
  while (H::more(0.4) && H::failed.empty())
  {
    const int n = H::coin(3) ? H::ri(0, 4) : H::ri(0, H::coin(10) ? 400 : 40); items.clear(); const int how = H::ri(0, 3); for (int i = 0; i < n; i++) items.push_back(how == 0 ? H::ri(0, 3) : how == 1 ? n - i : how == 2 ? H::rd(-5, 5) : (H::coin(9) ? std::numeric_limits<double>::infinity() : H::rd(0, 9))); cur = how == 0 ? 0 : H::rd(-6, 6);
    size_t a = H::ri(0, n), b = H::ri(a, n); if (H::coin()) { a = 0; b = n; } const int64_t K = H::coin(4) ? (int64_t)(b - a) + H::ri(-2, 2) : H::ri(0, n + 2); const DegreeOfParallelism p(threads[H::ri(0, 5)]); const bool whole = a == 0 && b == (size_t)n;
    std::string ctx = H::S("items", n, "how", how, "range", a, b, "K", K, "threads", p.GetNumThreads(), H::SV(items), "current", cur); H::at("knn", ctx); if (K < 0) { H::check(H::threw([&] { GetKNearestNeighborsInRange<double, double>(items, a, b, cur, dist, K, p); }) == 1 && H::threw([&] { GetKNearestNeighborsInRangeParallel<double, double>(items, a, b, cur, dist, K, p); }) == 1 && H::threw([&] { GetKNearestNeighborsInRangeSerial<double, double>(items, a, b, cur, dist, K); }) == 1, "negative-K", ctx); continue; }
    auto all = [&](const std::string& s) {
      examine(GetKNearestNeighborsInRangeSerial<double, double>(items, a, b, cur, dist, K), a, b, K, "serial" + s, ctx); examine(GetKNearestNeighborsInRangeParallel<double, double>(items, a, b, cur, dist, K, p), a, b, K, "parallel" + s, ctx); examine(GetKNearestNeighborsInRange<double, double>(items, a, b, cur, dist, K, p), a, b, K, "range" + s, ctx);
      if (whole) { examine(GetKNearestNeighborsSerial<double, double>(items, cur, dist, K), a, b, K, "all-serial" + s, ctx); examine(GetKNearestNeighborsParallel<double, double>(items, cur, dist, K, p), a, b, K, "all-parallel" + s, ctx); examine(GetKNearestNeighbors<double, double>(items, cur, dist, K, p), a, b, K, "all" + s, ctx); } };
    all("");
    if (H::coin(4))
    {
#pragma omp parallel num_threads(2)
      {
#pragma omp single
        all("-nested");
      }
    }
    if (H::coin(5)) for (auto [x, y] : std::vector<std::pair<size_t, size_t>>{{(size_t)n + 1, (size_t)n + 1}, {0, (size_t)n + 1}, {1, 0}}) H::check(H::threw([&, x = x, y = y] { GetKNearestNeighborsInRangeSerial<double, double>(items, x, y, cur, dist, 1); }) == 1 && H::threw([&, x = x, y = y] { GetKNearestNeighborsInRangeParallel<double, double>(items, x, y, cur, dist, 1, p); }) == 1 && H::threw([&, x = x, y = y] { GetKNearestNeighborsInRange<double, double>(items, x, y, cur, dist, 1, p); }) == 1, "bad-range", ctx, x, y);
    H::ev(b - a > 1 && K > 0 && K < (int64_t)(b - a));
  }
  return H::done("random item lists of up to 400 doubles (ties, infinite distances), sub-ranges, K from 0 past the size, 1 to 16 threads, also from inside a parallel region, against a full sort");
}
