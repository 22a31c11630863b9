#include "common.hpp"
#include <common_robotics_utilities/simple_graph.hpp>
using namespace common_robotics_utilities; using namespace common_robotics_utilities::simple_graph;
using G = Graph<int64_t>; using O = NonOwningGraphOverlay<int64_t, G>; using DP = parallelism::DegreeOfParallelism;
template<class T> static bool linked(const T& g)
{
  const int64_t n = g.Size();
  for (int64_t i = 0; i < n; i++)
  {
    for (auto& e : g.GetNodeImmutable(i).GetInEdgesImmutable()) { if (e.GetFromIndex() < 0 || e.GetFromIndex() >= n || e.GetToIndex() != i || e.GetFromIndex() == i) return false; bool f = false; for (auto& o : g.GetNodeImmutable(e.GetFromIndex()).GetOutEdgesImmutable()) f |= o.GetToIndex() == i; if (!f) return false; }
    for (auto& e : g.GetNodeImmutable(i).GetOutEdgesImmutable()) { if (e.GetToIndex() < 0 || e.GetToIndex() >= n || e.GetFromIndex() != i || e.GetToIndex() == i) return false; bool f = false; for (auto& o : g.GetNodeImmutable(e.GetToIndex()).GetInEdgesImmutable()) f |= o.GetFromIndex() == i; if (!f) return false; }
  }
  return true;
}
template<class T> static std::string dump(const T& g) { std::string s; for (int64_t i = 0; i < g.Size(); i++) { auto& n = g.GetNodeImmutable(i); s += H::S("#", n.GetValueImmutable(), "in"); for (auto& e : n.GetInEdgesImmutable()) s += H::S(e.GetFromIndex(), e.GetToIndex(), e.GetWeight(), e.GetScratchpad(), ","); s += "out"; for (auto& e : n.GetOutEdgesImmutable()) s += H::S(e.GetFromIndex(), e.GetToIndex(), e.GetWeight(), e.GetScratchpad(), ","); } return s; }
template<class IN> static void agree(const IN& g, const std::unordered_set<int64_t>& prune, const G& r, const std::string& ctx)
{
  std::vector<int64_t> kept; std::map<int64_t, int64_t> idx; for (int64_t i = 0; i < g.Size(); i++) if (!prune.count(i)) { idx[i] = kept.size(); kept.push_back(i); }
  H::check(r.Size() == (int64_t)kept.size(), "size", ctx); if (r.Size() != (int64_t)kept.size()) return;
  for (size_t k = 0; k < kept.size(); k++)
  {
    auto& a = g.GetNodeImmutable(kept[k]); auto& b = r.GetNodeImmutable(k); H::check(a.GetValueImmutable() == b.GetValueImmutable(), "value", ctx, "node", k);
    for (int w = 0; w < 2; w++)
    {
      auto& x = w ? a.GetOutEdgesImmutable() : a.GetInEdgesImmutable(); auto& y = w ? b.GetOutEdgesImmutable() : b.GetInEdgesImmutable(); size_t q = 0;
      for (auto& e : x) { if (prune.count(e.GetFromIndex()) || prune.count(e.GetToIndex())) continue; const bool ok = q < y.size() && y[q].GetFromIndex() == idx[e.GetFromIndex()] && y[q].GetToIndex() == idx[e.GetToIndex()] && y[q].GetWeight() == e.GetWeight() && y[q].GetScratchpad() == e.GetScratchpad(); H::check(ok, w ? "out-edges" : "in-edges", ctx, "node", k, "edge", q); q++; if (!ok) return; }
      H::check(q == y.size(), w ? "out-edges" : "in-edges", ctx, "extra edges at node", k);
    }
  }
  H::check(linked(r) && r.CheckGraphLinkage(), "linked", ctx);
}
int main(int c, char** v)
{
  H::init(c, v);
  while (H::more(0.4) && H::failed.empty()) for (int rep = 0; rep < 20; rep++)
  {
    G g; const int n = H::coin(10) ? H::ri(0, 60) : H::ri(0, 9); for (int i = 0; i < n; i++) g.AddNode(H::ri(-99, 99));
    if (n > 1) for (int k = H::ri(0, 3 * n); k > 0; k--) { const int64_t a = H::ri(0, n - 1), b = H::ri(0, n - 1); if (a == b) continue; if (H::coin()) g.AddEdgeBetweenNodes(a, b, H::rd(0, 9)); else g.AddEdgesBetweenNodes(a, b, H::rd(0, 9)); }
    for (int i = 0; i < n; i++) for (auto& e : g.GetNodeMutable(i).GetInEdgesMutable()) if (H::coin()) e.SetScratchpad(H::rd(0, 1));
    std::unordered_set<int64_t> prune; const int how = H::ri(0, 4); for (int i = 0; i < n; i++) if (how == 0 ? false : how == 1 ? true : H::coin(how)) prune.insert(i);
    if (n && H::coin(4)) prune = {H::coin() ? 0 : n - 1};
    const int threads = H::ri(1, 6); const DP p = H::coin() ? DP::None() : DP(threads); std::vector<int64_t> pv(prune.begin(), prune.end()); const std::string before = dump(g), ctx = H::S("threads", p.GetNumThreads(), "prune", H::SV(pv), "of", before); H::at("prune", ctx);
    agree(g, prune, PruneGraph(g, prune, p), "PruneGraph " + ctx); agree(g, prune, g.MakePrunedCopy(prune, p), "MakePrunedCopy " + ctx); H::check(before == dump(g), "input-untouched", ctx);
    if (n > 1) { O o(g); for (int k = H::ri(0, 4); k > 0; k--) o.AddNode(H::ri(-99, 99)); for (int k = H::ri(0, 6); k > 0; k--) { const int64_t a = H::ri(0, o.Size() - 1), b = H::ri(0, o.Size() - 1); if (a != b) o.AddEdgesBetweenNodes(a, b, H::rd(0, 9)); } auto pr = prune; if (H::coin()) pr.insert(o.Size() - 1); const std::string cx = H::S("overlay, threads", p.GetNumThreads(), "of", dump(o)); H::at("prune", cx); agree(o, pr, PruneGraph<O, G>(o, pr, p), cx); }
    H::ev(!prune.empty()); if (!H::failed.empty()) break;
  }
  return H::done("random graphs of up to 60 nodes with multi-edges, random prune sets (none, all, first, last, random), serial and 2-6 threads, graphs and overlays");
}
