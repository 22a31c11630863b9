#include "common.hpp"
#include <common_robotics_utilities/simple_graph.hpp>
#include <common_robotics_utilities/simple_graph_search.hpp>
#include <memory>
using namespace common_robotics_utilities::simple_graph;
using G = Graph<int64_t>; using N = G::NodeType; using O = NonOwningGraphOverlay<int64_t, G>; using W = OwningGraphOverlay<int64_t, G>;
template<class T> static std::string dump(const T& g) { std::string s; for (int64_t i = 0; i < g.Size(); i++) { auto& n = g.GetNodeImmutable(i); s += H::S("#", n.GetValueImmutable(), "in"); for (auto& e : n.GetInEdgesImmutable()) s += H::S(e.GetFromIndex(), e.GetToIndex(), e.GetWeight(), e.GetScratchpad(), ","); s += "out"; for (auto& e : n.GetOutEdgesImmutable()) s += H::S(e.GetFromIndex(), e.GetToIndex(), e.GetWeight(), e.GetScratchpad(), ","); } return s; }
template<class OV> static void run(OV& o, const G& base, const std::string& kind)
{
  G copy = base; const std::string before = dump(base); std::string ctx = kind + " over " + before + ":"; H::at("history", ctx);
  const int steps = H::ri(0, 12);
  for (int s = 0; s < steps; s++)
  {
    const int64_t n = copy.Size(); const std::vector<int64_t> odd = {-1, n, n + 1, base.Size(), INT64_MIN, INT64_MAX}; auto pick = [&]() -> int64_t { return H::coin(8) || !n ? odd[H::ri(0, 5)] : H::ri(0, n - 1); };
    const int op = H::ri(0, 6);
    if (op <= 1) { const int64_t v = H::ri(-9, 9); ctx += H::S("node", v, ";"); H::at("history", ctx); const int64_t a = op ? o.AddNode(v) : o.AddNode(N(v)), b = op ? copy.AddNode(v) : copy.AddNode(N(v)); H::check(a == b, "node-index", ctx, a, b); }
    else if (op <= 4)
    {
      const int64_t a = pick(), b = H::coin(10) ? a : pick(); const double w = H::rd(0, 4); ctx += H::S(op == 4 ? "both" : "one", a, b, w, ";"); H::at("history", ctx);
      const int x = H::threw([&] { if (op == 4) o.AddEdgesBetweenNodes(a, b, w); else o.AddEdgeBetweenNodes(a, b, w); }), y = H::threw([&] { if (op == 4) copy.AddEdgesBetweenNodes(a, b, w); else copy.AddEdgeBetweenNodes(a, b, w); }); H::check(x == y, "edge-rejects", ctx, x, y);
    }
    else if (op == 5) { const int64_t a = pick(), v = H::ri(-9, 9); ctx += H::S("set", a, v, ";"); H::at("history", ctx); const int x = H::threw([&] { o.GetNodeMutable(a).GetValueMutable() = v; }), y = H::threw([&] { copy.GetNodeMutable(a).GetValueMutable() = v; }); H::check(x == y, "mutable-rejects", ctx, x, y); }
    else { const int64_t a = pick(); H::at("history", ctx); const int x = H::threw([&] { (void)o.GetNodeImmutable(a); }), y = H::threw([&] { (void)copy.GetNodeImmutable(a); }); H::check(x == y, "read-rejects", ctx, a, x, y); H::check(o.IndexInRange(a) == copy.IndexInRange(a), "in-range", ctx, a); }
    H::check(dump(o) == dump(copy), "same-graph", ctx, "overlay", dump(o), "copy", dump(copy)); H::check(dump(base) == before, "base-unchanged", ctx); H::check(o.Size() == copy.Size(), "size", ctx); H::check(o.CheckGraphLinkage() == copy.CheckGraphLinkage(), "linkage", ctx); if (!H::failed.empty()) return;
  }
  if (o.Size() > 0) { H::at("damage", ctx); const int64_t i = H::ri(0, o.Size() - 1); auto& a = o.GetNodeMutable(i).GetOutEdgesMutable(); auto& b = copy.GetNodeMutable(i).GetOutEdgesMutable(); if (!a.empty()) { const int64_t k = H::ri(0, a.size() - 1); a.erase(a.begin() + k); b.erase(b.begin() + k); H::check(o.CheckGraphLinkage() == copy.CheckGraphLinkage(), "linkage-damaged", ctx); } }
  H::ev();
}
int main(int c, char** v)
{
  H::init(c, v);
  while (H::more(0.4) && H::failed.empty()) for (int rep = 0; rep < 30; rep++)
  {
    auto g = std::make_shared<G>(); const int n = H::ri(0, 6); for (int i = 0; i < n; i++) g->AddNode(H::ri(-99, 99)); if (n > 1) for (int k = H::ri(0, 8); k > 0; k--) { const int64_t a = H::ri(0, n - 1), b = H::ri(0, n - 1); if (a != b) g->AddEdgesBetweenNodes(a, b, H::rd(0, 9)); }
    if (H::coin()) { O o(*g); run(o, *g, "overlay"); } else if (H::coin()) { O o(g.get()); run(o, *g, "overlay*"); } else { const G keep = *g; W o(g); g.reset(); run(o, keep, "owning"); }
    if (!H::failed.empty()) break;
  }
  H::check(H::threw([] { O o(static_cast<const G*>(nullptr)); }) == 1, "null-base", "nullptr"); H::check(H::threw([] { W o(std::shared_ptr<const G>{}); }) == 1, "null-base", "owning nullptr");
  return H::done("random histories of up to 12 operations on overlays (owning and not) against the same operations on a copy of the base");
}
