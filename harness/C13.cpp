#include "common.hpp"
#include <common_robotics_utilities/simple_graph.hpp>
using namespace common_robotics_utilities::simple_graph;
using G = Graph<int64_t>; using N = G::NodeType;
struct E { int64_t f, t; double w; };
struct Model { std::vector<int64_t> vals; std::vector<std::vector<E>> in, out; };
static bool same(const std::vector<GraphEdge>& a, const std::vector<E>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i].GetFromIndex() != b[i].f || a[i].GetToIndex() != b[i].t || a[i].GetWeight() != b[i].w || a[i].GetScratchpad() != 0) return false; return true; }
static bool linked(const G& g)
{
  const int64_t n = g.Size();
  for (int64_t i = 0; i < n; i++)
  {
    for (auto& e : g.GetNodesImmutable()[i].GetInEdgesImmutable()) { if (e.GetFromIndex() < 0 || e.GetFromIndex() >= n || e.GetToIndex() != i || e.GetFromIndex() == i) return false; bool f = false; for (auto& o : g.GetNodesImmutable()[e.GetFromIndex()].GetOutEdgesImmutable()) f |= o.GetToIndex() == i; if (!f) return false; }
    for (auto& e : g.GetNodesImmutable()[i].GetOutEdgesImmutable()) { if (e.GetToIndex() < 0 || e.GetToIndex() >= n || e.GetFromIndex() != i || e.GetToIndex() == i) return false; bool f = false; for (auto& o : g.GetNodesImmutable()[e.GetToIndex()].GetInEdgesImmutable()) f |= o.GetFromIndex() == i; if (!f) return false; }
  }
  return true;
}
static std::string dump(const G& g) { std::string s; for (int64_t i = 0; i < g.Size(); i++) s += g.GetNodeImmutable(i).Print() + ";"; return s; }
static void agree(const G& g, const Model& m, const std::string& ctx)
{
  H::check(g.Size() == (int64_t)m.vals.size(), "size", ctx); if (g.Size() != (int64_t)m.vals.size()) return;
  for (size_t i = 0; i < m.vals.size(); i++) { const N& n = g.GetNodeImmutable(i); H::check(n.GetValueImmutable() == m.vals[i], "value", ctx); H::check(same(n.GetInEdgesImmutable(), m.in[i]) && same(n.GetOutEdgesImmutable(), m.out[i]), "edges", ctx, "node", i); }
  H::check(g.CheckGraphLinkage() && linked(g), "linked", ctx);
}
static void history(int steps)
{
  G g; if (H::coin(4)) g = G(H::ri(0, 5)); Model m; std::string ctx = "history:";
  for (int s = 0; s < steps; s++)
  {
    const int op = H::ri(0, 5); const int64_t n = m.vals.size(); H::at("history", ctx);
    if (op <= 1) { const int64_t v = H::ri(-9, 9); const int64_t r = op ? g.AddNode(v) : g.AddNode(N(v)); ctx += H::S("node", v, ";"); H::check(r == n, "node-index", ctx); m.vals.push_back(v); m.in.emplace_back(); m.out.emplace_back(); }
    else
    {
      const std::vector<int64_t> odd = {-1, n, n + 1, INT64_MIN, INT64_MAX}; auto pick = [&] { return H::coin(8) || !n ? odd[H::ri(0, 4)] : H::ri(0, n - 1); };
      const int64_t a = pick(), b = H::coin(10) ? a : pick(); const double w = H::rd(-1, 4); const bool both = op == 5; ctx += H::S(both ? "both" : "one", a, b, w, ";"); H::at("history", ctx);
      const bool ok = a >= 0 && a < n && b >= 0 && b < n && a != b; const std::string before = dump(g);
      const int t = H::threw([&] { if (both) g.AddEdgesBetweenNodes(a, b, w); else g.AddEdgeBetweenNodes(a, b, w); }); H::check(t == (ok ? 0 : 1), "edge-rejects", ctx); if (!ok) H::check(before == dump(g), "rejected-unchanged", ctx);
      if (ok) { m.out[a].push_back({a, b, w}); m.in[b].push_back({a, b, w}); if (both) { m.out[b].push_back({b, a, w}); m.in[a].push_back({b, a, w}); } }
    }
    agree(g, m, ctx); if (!H::failed.empty()) return;
  }
  for (int64_t i : {(int64_t)-1, g.Size(), INT64_MIN, INT64_MAX}) { H::check(!g.IndexInRange(i), "in-range", ctx, i); H::check(H::threw([&] { (void)g.GetNodeImmutable(i); }) == 1 && H::threw([&] { (void)g.GetNodeMutable(i); }) == 1, "node-bounds", ctx, i); }
  for (int64_t i = 0; i < g.Size(); i++) H::check(g.IndexInRange(i), "in-range", ctx, i);
  { G h(g.GetNodesImmutable()); agree(h, m, ctx + " copied"); std::vector<uint8_t> b; using namespace common_robotics_utilities::serialization; G::Serialize(g, b, SerializeMemcpyable<int64_t>); const auto d = G::Deserialize(b, 0, DeserializeMemcpyable<int64_t>); agree(d.Value(), m, ctx + " restored"); H::check(d.BytesRead() == b.size(), "restored-bytes", ctx); }
  // damage the linkage at random through the mutable accessors: the check must agree with the relation
  for (int k = 0; k < 6 && g.Size() > 0; k++)
  {
    G h = g; const int64_t i = H::ri(0, h.Size() - 1); N& n = h.GetNodeMutable(i); auto& es = H::coin() ? n.GetInEdgesMutable() : n.GetOutEdgesMutable(); const int how = H::ri(0, 3);
    if (how == 0 && !es.empty()) es.erase(es.begin() + H::ri(0, es.size() - 1)); else if (how == 1 && !es.empty()) es[H::ri(0, es.size() - 1)].SetFromIndex(H::ri(-1, h.Size())); else if (how == 2 && !es.empty()) es[H::ri(0, es.size() - 1)].SetToIndex(H::ri(-1, h.Size())); else es.insert(es.begin() + H::ri(0, es.size()), GraphEdge(H::ri(-1, h.Size()), H::ri(-1, h.Size()), 1.0));
    const std::string c2 = ctx + " damaged " + dump(h); H::at("damage", c2); const bool want = linked(h); H::check(h.CheckGraphLinkage() == want, "linkage-check", c2); H::check(H::threw([&] { G x(h.GetNodesImmutable()); }) == (want ? 0 : 1), "from-nodes", c2); H::ev(!want);
    if (!H::failed.empty()) return;
  }
  H::ev();
}
int main(int c, char** v)
{
  H::init(c, v);
  while (H::more(0.3) && H::failed.empty()) for (int k = 0; k < 50; k++) history(H::ri(1, 14));
  return H::done("random histories of up to 14 node and edge additions with valid and invalid indices, then random damage of the edge lists");
}
