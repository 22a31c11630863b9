#include "common.hpp"
#include <common_robotics_utilities/simple_graph.hpp>
#include <common_robotics_utilities/simple_graph_search.hpp>
using namespace common_robotics_utilities::simple_graph; using namespace common_robotics_utilities::simple_graph_search;
using G = Graph<int64_t>; using O = NonOwningGraphOverlay<int64_t, G>;
static double weight(int how) { const double inf = std::numeric_limits<double>::infinity(); switch (how) { case 0: return H::ri(0, 3); case 1: return H::rd(0, 1); case 2: return H::coin(3) ? 0.0 : H::rd(0, 2); case 3: return H::coin(4) ? inf : H::rd(0, 9); case 4: return H::coin() ? 1e308 : 1e292 * H::rd(0, 1); default: return H::coin(5) ? 1e-320 : 0.1 * H::ri(1, 9); } }
template<class T> static void examine(const T& g, int64_t s, const std::string& ctx)
{
  const double inf = std::numeric_limits<double>::infinity(); const int64_t n = g.Size(); H::at("search", ctx); const auto r = PerformDijkstrasAlgorithm(g, s); H::check(r.Size() == n, "size", ctx); if (r.Size() != n) return;
  std::vector<double> d(n, inf); d[s] = 0; for (bool ch = true; ch;) { ch = false; for (int64_t p = 0; p < n; p++) for (auto& e : g.GetNodeImmutable(p).GetInEdgesImmutable()) { const double c = d[p] + e.GetWeight(); if (c < d[e.GetFromIndex()]) { d[e.GetFromIndex()] = c; ch = true; } } }
  for (int64_t u = 0; u < n; u++)
  {
    H::check(r.GetNodeDistance(u) == d[u], "distance", ctx, "node", u, "got", r.GetNodeDistance(u), "want", d[u]); const int64_t p = r.GetPreviousIndex(u);
    if (u == s) H::check(p == s && r.GetNodeDistance(s) == 0, "start", ctx);
    else if (d[u] == inf) H::check(p == -1, "unreachable-predecessor", ctx, "node", u, p);
    else { bool ok = false; if (p >= 0 && p < n) for (auto& e : g.GetNodeImmutable(u).GetOutEdgesImmutable()) ok |= e.GetToIndex() == p && r.GetNodeDistance(p) + e.GetWeight() == r.GetNodeDistance(u); H::check(ok, "predecessor", ctx, "node", u, p); int64_t at = u; for (int64_t k = 0; k <= n && at >= 0 && at < n && at != s; k++) at = r.GetPreviousIndex(at); H::check(at == s, "chain", ctx, "node", u); }
  }
  std::vector<uint8_t> b; DijkstrasResult::Serialize(r, b); const auto q = DijkstrasResult::Deserialize(b, 0); bool same = q.BytesRead() == b.size() && q.Value().Size() == n; for (int64_t u = 0; same && u < n; u++) same = q.Value().GetPreviousIndex(u) == r.GetPreviousIndex(u) && q.Value().GetNodeDistance(u) == r.GetNodeDistance(u); H::check(same, "stored", ctx);
  for (int64_t i : {(int64_t)-1, n, INT64_MIN, INT64_MAX}) { H::check(H::threw([&] { (void)r.GetNodeDistance(i); }) == 1 && H::threw([&] { (void)r.GetPreviousIndex(i); }) == 1, "read-rejects", ctx, i); H::check(H::threw([&] { (void)PerformDijkstrasAlgorithm(g, i); }) == 1, "start-rejects", ctx, i); }
}
int main(int c, char** v)
{
  H::init(c, v); H::check(H::threw([] { DijkstrasResult r({1, 2}, {0.0}); }) == 1, "mismatched-tables", "2 and 1");
  while (H::more(0.4) && H::failed.empty()) for (int rep = 0; rep < 20; rep++)
  {
    G g; const int n = H::ri(1, H::coin(6) ? 25 : 7); for (int i = 0; i < n; i++) g.AddNode(i); const int how = H::ri(0, 5); std::string ctx = H::S("nodes", n, "edges");
    if (n > 1) for (int k = H::ri(0, 4 * n); k > 0; k--) { const int64_t a = H::ri(0, n - 1), b = H::ri(0, n - 1); if (a == b) continue; const double w = weight(how); if (H::coin()) { g.AddEdgeBetweenNodes(a, b, w); ctx += H::S(a, ">", b, ":", w, ";"); } else { g.AddEdgesBetweenNodes(a, b, w); ctx += H::S(a, "<>", b, ":", w, ";"); } }
    const int64_t s = H::ri(0, n - 1); ctx += H::S("start", s); examine(g, s, ctx);
    if (n > 1 && H::coin(3)) { O o(g); o.AddNode(99); o.AddEdgesBetweenNodes(n, s, weight(how)); examine(o, H::coin() ? n : s, "overlay " + ctx); }
    H::ev(n > 2); if (!H::failed.empty()) break;
  }
  return H::done("random graphs (and overlays) of up to 25 nodes, integer, fractional, zero, infinite, huge and tiny weights, against relaxation to a fixed point");
}
