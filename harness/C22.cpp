#include "common.hpp"
#include <set>
#include <map>
#include <common_robotics_utilities/simple_kmeans_clustering.hpp>
// SRC: 
using namespace common_robotics_utilities; namespace km = simple_kmeans_clustering;
struct P { double x = 0, y = 0; bool operator==(const P& o) const { return x == o.x && y == o.y; } };
using V = std::vector<P>; using W = std::vector<double>; using D = std::function<double(const P&, const P&)>; using A = std::function<P(const V&, const W&)>;
int main(int c, char** v)
{
  H::init(c, v);
  const D dist = [](const P& a, const P& b) { return std::hypot(a.x - b.x, a.y - b.y); };
  while (H::more(0.4) && H::failed.empty())
  {
    const int n = H::coin(4) ? H::ri(100, 300) : H::ri(1, 14), k = H::coin(4) ? H::ri(1, std::min(n, 3)) : H::ri(1, std::min(n, 8)); V d(n); W w(n); const int how = H::ri(0, 2);
    for (int i = 0; i < n; i++) { d[i] = how == 0 ? P{H::rd(-9, 9), H::rd(-9, 9)} : P{(double)(H::ri(0, 3) * 10) + H::rd(0, 1), (double)i * 1e-3}; w[i] = H::rd(0.1, 3); }
    const auto par = H::coin() ? parallelism::DegreeOfParallelism(H::ri(1, 4)) : parallelism::DegreeOfParallelism::None(); const bool pre = H::coin(); const int64_t seed = H::ri(0, 1000); auto ctx = H::S("items", n, "clusters", k, "preliminary", pre, "seed", seed, "kind", how, "threads", par.GetNumThreads()); H::at("cluster", ctx);
    std::map<std::pair<double, double>, int> at; for (int i = 0; i < n; i++) at[{d[i].x, d[i].y}] = i;
    bool own = true, empty = false; const A avg = [&](const V& m, const W& mw) { P s; double t = 0; if (m.empty()) { empty = true; return s; } if (m.size() != mw.size()) own = false; else for (size_t i = 0; i < m.size(); i++) { if (w[at[{m[i].x, m[i].y}]] != mw[i]) own = false; s.x += m[i].x * mw[i]; s.y += m[i].y * mw[i]; t += mw[i]; } s.x /= t; s.y /= t; return s; };
    // every step on its own
    V cen(k); for (auto& q : cen) q = d[H::ri(0, n - 1)]; auto l = km::PerformSingleClusteringIteration<P, V>(d, cen, dist, par); bool ok = l.size() == (size_t)n; for (int i = 0; ok && i < n; i++) { ok = l[i] >= 0 && l[i] < k; for (int j = 0; ok && j < k; j++) ok = dist(cen[l[i]], d[i]) <= dist(cen[j], d[i]); } H::check(ok, "assignment", ctx);
    std::vector<int32_t> lab(n); for (auto& x : lab) x = H::ri(0, k - 1); auto cc = km::ComputeClusterCentersWeighted<P, V>(d, w, lab, avg, k, par); ok = cc.size() == (size_t)k;
    for (int j = 0; ok && j < k; j++) { V m; W mw; for (int i = 0; i < n; i++) if (lab[i] == j) { m.push_back(d[i]); mw.push_back(w[i]); } ok = avg(m, mw) == cc[j]; } H::check(ok && own, "centres", ctx);
    auto lab2 = lab; const int at2 = H::ri(0, n - 1); if (H::coin()) lab2[at2]++; H::check(km::CheckForConvergence(lab, lab2) == (lab == lab2), "convergence", ctx); lab2.push_back(0); H::check(H::threw([&] { km::CheckForConvergence(lab, lab2); }) == 1, "convergence sizes", ctx);
    // the whole procedure
    std::vector<int32_t> r; const bool weighted = H::coin(); empty = false; own = true; W ones(n, 1.0);
    const D first = dist; if (weighted) r = km::ClusterWeighted<P, V>(d, w, dist, avg, k, seed, pre, par); else r = km::Cluster<P, V>(d, dist, [&](const V& m) { P s; for (auto& q : m) { s.x += q.x; s.y += q.y; } if (m.empty()) { empty = true; return s; } s.x /= m.size(); s.y /= m.size(); return s; }, k, seed, pre, par);
    H::check(r.size() == (size_t)n, "one label per item", ctx); ok = true; for (int x : r) ok = ok && x >= 0 && x < k; H::check(ok, "labels in range", ctx); if (!H::failed.empty()) break;
    if (k > 1) { auto c2 = km::ComputeClusterCentersWeighted<P, V>(d, weighted ? w : ones, r, [&](const V& m, const W& mw) { P s; double t = 0; if (m.empty()) return s; for (size_t i = 0; i < m.size(); i++) { s.x += m[i].x * mw[i]; s.y += m[i].y * mw[i]; t += mw[i]; } s.x /= t; s.y /= t; return s; }, k, par); ok = true; for (int i = 0; i < n; i++) for (int j = 0; j < k; j++) ok = ok && dist(c2[r[i]], d[i]) <= dist(c2[j], d[i]) + 1e-9; H::check(ok, "final labels are nearest to the centres of the clusters returned", ctx); } else { ok = true; for (int x : r) ok = ok && x == 0; H::check(ok, "one cluster", ctx); }
    H::check(own, "weights belong to their items", ctx);
    const int big = n + H::ri(1, 9); if (n < 30 || big < n / 20) { H::at("too many clusters", ctx + H::S("asked", big)); H::check(H::threw([&] { km::ClusterWeighted<P, V>(d, w, dist, avg, big == 1 ? 2 : big, seed, pre, par); }) == 1, "more clusters than items", ctx + H::S("asked", big)); }
    H::check(H::threw([&] { km::ClusterWeighted<P, V>(d, w, dist, avg, 0, seed, pre, par); }) == 1, "no clusters", ctx); H::check(km::ClusterWeighted<P, V>(V(), W(), dist, avg, k, seed, pre, par).empty(), "no items", ctx); H::ev(n > 100 && pre && k > 1);
  }
  return H::done("random and clumped sets of up to 300 items, up to 8 clusters, with and without preliminary clustering, weights and threads: every step and the whole procedure");
}
