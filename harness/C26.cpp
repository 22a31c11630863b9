#include "common.hpp"
#include <iostream>
namespace tu { struct P { int64_t v = 0; }; inline std::ostream& operator<<(std::ostream& s, const P& p) { return s << p.v; } }
#include <common_robotics_utilities/simple_prm_planner.hpp>
using namespace common_robotics_utilities; using namespace simple_prm_planner; using tu::P; using G = simple_graph::Graph<P>; using OG = simple_graph::NonOwningGraphOverlay<P, G>;
using Deg = parallelism::DegreeOfParallelism; static const double INF = std::numeric_limits<double>::infinity();
struct Env { bool sym, shifted; uint32_t salt; int valid_of; };
static double dist(const Env& e, const P& a, const P& b) { const double d = std::abs(a.v - b.v); return e.sym || a.v <= b.v ? d : 3 * d; }
static bool valid(const Env& e, const P& a, const P& b) { int64_t x = a.v, y = b.v; if (e.sym && x > y) std::swap(x, y); uint32_t h = e.salt * 2654435761u + (uint32_t)x * 40503u + (uint32_t)y * 2246822519u; h ^= h >> 13; h *= 2654435761u; return (h >> 16) % 4 < (uint32_t)e.valid_of; }
static bool okstate(const P& p) { return ((uint32_t)p.v * 2654435761u >> 20) % 5 != 0; }
using IDX = simple_knearest_neighbors::IndexAndDistance;
struct Bad : GraphKNNProvider<P, G>
{
  int64_t idx; explicit Bad(int64_t i) : idx(i) {}
  std::vector<IDX> DoGetKNearestNeighbors(const G&, const P&, int64_t, NNDistanceDirection, int64_t) const override { return {IDX(idx, 1.0)}; }
  std::vector<IDX> DoGetKNearestNeighbors(const OG&, const P&, int64_t, NNDistanceDirection, int64_t) const override { return {IDX(idx, 1.0)}; }
};
template <class X> static bool linked(const X& g) { return g.CheckGraphLinkage(); }
template <class X> static std::string dump(const X& g) { std::string s; for (int64_t i = 0; i < g.Size(); i++) { auto& n = g.GetNodeImmutable(i); s += H::S(i, "v", n.GetValueImmutable().v); for (auto& e : n.GetInEdgesImmutable()) s += H::S(" <", e.GetFromIndex(), e.GetToIndex(), e.GetWeight()); for (auto& e : n.GetOutEdgesImmutable()) s += H::S(" >", e.GetFromIndex(), e.GetToIndex(), e.GetWeight()); s += ";"; } return s; }
template <class X> static void edges_ok(const Env& e, const X& g, int64_t from_node, const std::string& ctx)
{
  for (int64_t i = 0; i < g.Size(); i++) for (int w = 0; w < 2; w++) for (auto& ed : w ? g.GetNodeImmutable(i).GetOutEdgesImmutable() : g.GetNodeImmutable(i).GetInEdgesImmutable())
  {
    const int64_t a = ed.GetFromIndex(), b = ed.GetToIndex(); if (a < from_node && b < from_node) continue; const P x = g.GetNodeImmutable(a).GetValueImmutable(), y = g.GetNodeImmutable(b).GetValueImmutable();
    H::check(valid(e, x, y), "edge-not-valid", ctx, a, b); H::check(ed.GetWeight() == dist(e, x, y), "edge-weight", ctx, a, b, ed.GetWeight());
  }
  H::check(linked(g), "linkage", ctx);
}
template <class X> static void add(const Env& e, X& g, const LinearGraphKNNProvider<P, G>& knn, const Deg& par, std::string& ctx)
{
  const P s{H::ri(-4, 12)}; const bool to = H::coin(), dup = H::coin(); const int64_t n = g.Size(), mx = H::coin(4) ? H::ri(0, n) : n, K = H::ri(1, 5); ctx += H::S(" add", s.v, to ? "roadmap->state" : "state->roadmap", "K", K, "max", mx, dup ? "dup" : ""); H::at("add", ctx);
  std::vector<std::string> before; for (int64_t i = 0; i < n; i++) before.push_back(H::S(g.GetNodeImmutable(i).GetInEdgesImmutable().size(), g.GetNodeImmutable(i).GetOutEdgesImmutable().size())); const std::string whole = dump(g);
  const int64_t r = AddNodeToRoadmap<P, X>(s, to ? NNDistanceDirection::ROADMAP_TO_NEW_STATE : NNDistanceDirection::NEW_STATE_TO_ROADMAP, g, knn, [&](const P& a, const P& b) { return dist(e, a, b); }, [&](const int32_t, const P& a, const P& b) { return valid(e, a, b); }, K, mx, par, e.sym, dup);
  std::vector<double> d; for (int64_t i = 0; i < mx; i++) { const P x = g.GetNodeImmutable(i).GetValueImmutable(); d.push_back(to ? dist(e, x, s) : dist(e, s, x)); } auto so = d; std::sort(so.begin(), so.end()); const bool zero = !so.empty() && so[0] == 0;
  if (zero && !dup) { H::check(dump(g) == whole, "duplicate-changes", ctx); H::check(r >= 0 && r < mx && d[r] == 0, "duplicate-index", ctx, r); H::ev(); return; }
  H::check(r == n && g.Size() == n + 1, "appended", ctx, r); if (g.Size() != n + 1) return; H::check(g.GetNodeImmutable(n).GetValueImmutable().v == s.v, "state", ctx); const double far = so.empty() ? -1 : so[std::min<size_t>(K, so.size()) - 1]; int in = 0, out = 0;
  for (int64_t i = 0; i < n; i++)
  {
    int a = 0, b = 0; for (auto& ed : g.GetNodeImmutable(n).GetInEdgesImmutable()) a += ed.GetFromIndex() == i; for (auto& ed : g.GetNodeImmutable(n).GetOutEdgesImmutable()) b += ed.GetToIndex() == i; in += a; out += b; const P x = g.GetNodeImmutable(i).GetValueImmutable();
    H::check(a <= 1 && b <= 1, "edge-twice", ctx, i); if (i >= mx || d[i] > far) H::check(a + b == 0, "not-a-neighbour", ctx, i); else if (d[i] < far) H::check(a == valid(e, x, s) && b == valid(e, s, x), "neighbour-not-connected", ctx, i);
    H::check(H::S(g.GetNodeImmutable(i).GetInEdgesImmutable().size() - b, g.GetNodeImmutable(i).GetOutEdgesImmutable().size() - a) == before[i], "other-edges", ctx, i);
  }
  H::check(in == (int)g.GetNodeImmutable(n).GetInEdgesImmutable().size() && out == (int)g.GetNodeImmutable(n).GetOutEdgesImmutable().size(), "edges-to-nowhere", ctx); edges_ok(e, g, 0, ctx); H::ev(in + out);
}
static void session()
{
  Env e{H::coin(), false, (uint32_t)H::ri(0, 1 << 20), (int)H::ri(1, 4)}; const Deg par = H::coin() ? Deg(H::ri(2, 4)) : Deg::None(); std::string ctx = H::S(e.sym ? "symmetric" : "asymmetric", "salt", e.salt, "valid", e.valid_of, "threads", par.GetNumThreads());
  const std::function<double(const P&, const P&)> df = [&](const P& a, const P& b) { return dist(e, a, b); }; std::function<bool(const int32_t, const P&, const P&)> ef = [&](const int32_t, const P& a, const P& b) { return valid(e, a, b); }; const std::function<bool(const int32_t, const P&)> sf = [&](const int32_t, const P& p) { return okstate(p); };
  LinearGraphKNNProvider<P, G> knn(df, par); G g; const int n = H::ri(0, 9); for (int i = 0; i < n; i++) add(e, g, knn, par, ctx);
  if (!H::failed.empty()) return;
  const int how = H::ri(0, 4); H::at("session", ctx);
  if (how == 0) { OG o(g); const std::string base = dump(g); for (int i = 0; i < 3; i++) add(e, o, knn, par, ctx); H::check(dump(g) == base, "overlay-changes-base", ctx); }
  else if (how == 1)
  { // grow
    const int64_t n0 = g.Size(); int left = H::ri(0, 12); bool told = true; const bool dup = H::coin(); const int64_t K = H::ri(1, 4); ctx += H::S(" grow", left, dup, K); H::at("grow", ctx);
    GrowRoadMap<P, G>(g, [&](const int32_t) { return P{(int64_t)(H::rng() % 17)}; }, knn, df, sf, ef, [&](const int64_t size) { told = told && size == g.Size(); return left-- <= 0; }, K, par, e.sym, dup); H::check(told, "grow-size", ctx); for (int64_t i = n0; i < g.Size(); i++) { H::check(okstate(g.GetNodeImmutable(i).GetValueImmutable()), "grow-invalid-state", ctx, i); } edges_ok(e, g, 0, ctx); H::ev();
  }
  else if (how == 2)
  { // re-evaluate
    Env e2{e.sym, false, e.salt + 1, (int)H::ri(0, 4)}; ctx += " update"; H::at("update", ctx); const std::function<bool(const int32_t, const P&, const P&)> ef2 = [&](const int32_t, const P& a, const P& b) { return valid(e2, a, b); }; const G old = g;
    if (H::coin(4) && g.Size() > 0) { G h = g; auto& es = h.GetNodeMutable(H::ri(0, h.Size() - 1)).GetInEdgesMutable(); if (!es.empty()) { es.pop_back(); H::check(H::threw([&] { UpdateRoadMapEdges<P, G>(h, ef2, df, par); }) == (linked(h) ? 0 : 1), "update-linkage", ctx); } }
    UpdateRoadMapEdges<P, G>(g, ef2, df, par);
    for (int64_t i = 0; i < g.Size(); i++) for (int w = 0; w < 2; w++) { auto& es = w ? g.GetNodeImmutable(i).GetOutEdgesImmutable() : g.GetNodeImmutable(i).GetInEdgesImmutable(); auto& os = w ? old.GetNodeImmutable(i).GetOutEdgesImmutable() : old.GetNodeImmutable(i).GetInEdgesImmutable(); H::check(es.size() == os.size(), "update-edges", ctx); if (es.size() != os.size()) return;
      for (size_t k = 0; k < es.size(); k++) { const int64_t a = es[k].GetFromIndex(), b = es[k].GetToIndex(); H::check(a == os[k].GetFromIndex() && b == os[k].GetToIndex(), "update-ends", ctx); const P x = g.GetNodeImmutable(a).GetValueImmutable(), y = g.GetNodeImmutable(b).GetValueImmutable(); H::check(es[k].GetWeight() == (valid(e2, x, y) ? dist(e2, x, y) : INF), "update-weight", ctx, a, b, es[k].GetWeight()); } } H::ev(2);
  }
  else if (how == 3)
  { // build
    const int64_t size = H::ri(0, 8), K = H::ri(1, 4); const bool dup = H::coin(), ps = H::coin(); ctx = H::S(e.sym ? "symmetric" : "asymmetric", "salt", e.salt, "valid", e.valid_of, "threads", par.GetNumThreads(), "build", size, K, dup, ps); H::at("build", ctx); std::atomic<uint32_t> next{(uint32_t)H::rng()};
    LinearGraphKNNProvider<P, G> k1(df, Deg::None()); G b; const int t = H::threw([&] { b = BuildRoadMap<P, G>(size, [&](const int32_t) { uint32_t x = next.fetch_add(1) * 2654435761u; return P{(int64_t)((x >> 15) % 23)}; }, k1, df, sf, ef, K, 50, par, ps, e.sym, dup); }); if (t) return;
    H::check(b.Size() == size, "build-size", ctx); edges_ok(e, b, 0, ctx); for (int64_t i = 0; i < b.Size(); i++) { const P x = b.GetNodeImmutable(i).GetValueImmutable(); H::check(okstate(x), "build-invalid-state", ctx); if (!dup) for (int64_t j = 0; j < i; j++) H::check(b.GetNodeImmutable(j).GetValueImmutable().v != x.v, "build-duplicate", ctx); } H::ev(3);
  }
  else
  { // providers that answer outside the roadmap
    for (int64_t i : {(int64_t)-1, (int64_t)0, g.Size() - 1, g.Size(), INT64_MIN, INT64_MAX}) { Bad bad(i); const int64_t mx = H::ri(0, g.Size()); const bool in = i >= 0 && i < g.Size() && i < mx; H::check(H::threw([&] { (void)bad.GetKNearestNeighbors(g, P{1}, 1, NNDistanceDirection::ROADMAP_TO_NEW_STATE, mx); }) == (in ? 0 : 1), "provider-range", ctx, i, mx); } H::ev(4);
  }
}
int main(int c, char** v)
{
  H::init(c, v);
  while (H::more(0.3) && H::failed.empty()) for (int k = 0; k < 100 && H::failed.empty(); k++) session();
  return H::done("roadmaps of up to 12 states, symmetric and asymmetric distances and edge checks, both search directions, 1 to 4 threads, graphs and overlays; grown, built and re-evaluated; nearest-neighbour answers outside the roadmap");
}
