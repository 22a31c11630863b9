#include "common.hpp"
#include <common_robotics_utilities/simple_graph.hpp>
#include <common_robotics_utilities/simple_graph_search.hpp>
#include <common_robotics_utilities/simple_astar_search.hpp>
using namespace common_robotics_utilities::simple_graph; using namespace common_robotics_utilities::simple_graph_search; namespace A = common_robotics_utilities::simple_astar_search;
using G = Graph<int64_t>; using Edge = GraphEdge;
static const double inf = std::numeric_limits<double>::infinity();
struct St { int64_t v; bool operator==(const St& o) const { return v == o.v; } }; struct StH { size_t operator()(const St& s) const { return s.v % 3; } };
struct W { int n; std::vector<std::vector<std::pair<int, double>>> out; std::set<std::pair<int, int>> bad; std::vector<bool> goal; std::vector<std::pair<int, double>> starts; };
// least cost of reaching a goal from every node
static std::vector<double> togo(const W& w) { std::vector<double> d(w.n, inf); for (int i = 0; i < w.n; i++) if (w.goal[i]) d[i] = 0; for (bool ch = true; ch;) { ch = false; for (int i = 0; i < w.n; i++) for (auto& e : w.out[i]) if (!w.bad.count({i, e.first}) && e.second + d[e.first] < d[i]) { d[i] = e.second + d[e.first]; ch = true; } } return d; }
static void verdict(const W& w, const std::vector<int64_t>& path, double cost, bool admissible, const std::string& key, const std::string& ctx)
{
  const auto d = togo(w); double best = inf; for (auto& s : w.starts) best = std::min(best, s.second + d[s.first]);
  H::check(path.empty() == (best == inf), key + "-found", ctx, "path", H::SV(path)); if (path.empty()) { H::check(cost == inf, key + "-no-path-cost", ctx, cost); return; }
  double sum = inf; for (auto& s : w.starts) if (s.first == path.front()) sum = std::min(sum, s.second); H::check(sum < inf, key + "-start", ctx, H::SV(path)); H::check(path.back() >= 0 && path.back() < w.n && w.goal[path.back()], key + "-goal", ctx, H::SV(path));
  for (size_t k = 0; k + 1 < path.size(); k++) { double m = inf; for (auto& e : w.out.at(path[k])) if (e.first == path[k + 1] && !w.bad.count({(int)path[k], e.first})) m = std::min(m, e.second); H::check(m < inf, key + "-transition", ctx, H::SV(path), "step", k); sum += m; }
  H::check(cost == sum, key + "-price", ctx, H::SV(path), "reported", cost, "sum", sum); if (admissible) H::check(cost == best, key + "-least", ctx, H::SV(path), "reported", cost, "least", best);
}
static std::vector<int64_t> strip(const std::vector<St>& p) { std::vector<int64_t> r; for (auto& s : p) r.push_back(s.v); return r; }
int main(int c, char** v)
{
  H::init(c, v);
  while (H::more(0.45) && H::failed.empty()) for (int rep = 0; rep < 20; rep++)
  {
    W w; w.n = H::ri(1, H::coin(5) ? 20 : 6); w.out.resize(w.n); w.goal.assign(w.n, false); const int wmax = H::coin() ? 3 : 12; std::string ctx = H::S("nodes", w.n, "edges");
    for (int k = H::ri(0, 4 * w.n); k > 0; k--) { const int a = H::ri(0, w.n - 1), b = H::ri(0, w.n - 1); if (a == b) continue; const double wt = H::ri(0, wmax); w.out[a].push_back({b, wt}); ctx += H::S(a, ">", b, ":", wt, ";"); if (H::coin(6) && !w.bad.count({a, b})) { w.bad.insert({a, b}); ctx += "(blocked) "; } }
    for (int k = H::ri(0, 2); k > 0; k--) w.goal[H::ri(0, w.n - 1)] = true; for (int k = H::ri(1, 3); k > 0; k--) w.starts.push_back({(int)H::ri(0, w.n - 1), H::coin() ? 0.0 : (double)H::ri(0, 15)});
    for (int i = 0; i < w.n; i++) if (w.goal[i]) ctx += H::S("goal", i); for (auto& s : w.starts) ctx += H::S("start", s.first, "cost", s.second);
    const auto d = togo(w); const int hk = H::ri(0, 3); std::vector<double> h(w.n, 0.0); for (int i = 0; i < w.n; i++) { const double t = std::min(d[i], 40.0); h[i] = hk == 0 ? 0 : hk == 1 ? t : hk == 2 ? (double)H::ri(0, (int64_t)t) : (double)H::ri(0, 30); } const bool adm = hk != 3; const bool limit = H::coin(); ctx += H::S("heuristic", H::SV(h), "limit", limit);
    H::at("search", ctx); // generic search over states
    { A::StatesWithCosts<St> ss; for (auto& s : w.starts) ss.emplace_back(St{s.first}, s.second); std::function<A::StatesWithCosts<St>(const St&)> ch = [&](const St& s) { A::StatesWithCosts<St> r; for (auto& e : w.out[s.v]) if (!w.bad.count({(int)s.v, e.first})) r.emplace_back(St{e.first}, e.second); return r; };
      const auto r = A::PerformAstarSearch<St, std::vector<St>, StH, std::equal_to<St>>(ss, [&](const St& s) { return (bool)w.goal[s.v]; }, ch, [&](const St& s) { return h[s.v]; }, limit); verdict(w, strip(r.Path()), r.PathCost(), adm, "states", ctx);
      std::function<std::vector<St>(const St&)> gen = [&](const St& s) { std::vector<St> r; for (auto& e : w.out[s.v]) r.push_back(St{e.first}); return r; }; std::function<double(const St&, const St&)> dist = [&](const St& a, const St& b) { double m = inf; for (auto& e : w.out[a.v]) if (e.first == b.v) m = std::min(m, e.second); return m; };
      const auto q = A::PerformAstarSearch<St, std::vector<St>, StH, std::equal_to<St>>(ss, [&](const St& s) { return (bool)w.goal[s.v]; }, gen, [&](const St& a, const St& b) { return !w.bad.count({(int)a.v, (int)b.v}); }, dist, [&](const St& s) { return h[s.v]; }, limit); verdict(w, strip(q.Path()), q.PathCost(), adm, "checked-states", ctx);
      W w1 = w; w1.starts = {{w.starts[0].first, 0.0}}; w1.goal.assign(w.n, false); const int gl = H::ri(0, w.n - 1); w1.goal[gl] = true; const auto d1 = togo(w1); const auto z = A::PerformAstarSearch<St, std::vector<St>, StH, std::equal_to<St>>(St{w1.starts[0].first}, St{gl}, gen, [&](const St& a, const St& b) { return !w.bad.count({(int)a.v, (int)b.v}); }, dist, [&](const St& a, const St&) { return hk == 0 ? 0.0 : std::min(d1[a.v], 40.0); }, limit); verdict(w1, strip(z.Path()), z.PathCost(), true, "single", ctx); }
    // graph search
    { G g; for (int i = 0; i < w.n; i++) g.AddNode(i); for (int i = 0; i < w.n; i++) for (auto& e : w.out[i]) g.AddEdgeBetweenNodes(i, e.first, e.second);
      IndexStatesWithCosts ss; for (auto& s : w.starts) ss.emplace_back(s.first, s.second); std::function<bool(const G&, const Edge&)> ok = [&](const G&, const Edge& e) { return !w.bad.count({(int)e.GetFromIndex(), (int)e.GetToIndex()}); }; std::function<double(const G&, const Edge&)> ew = [](const G&, const Edge& e) { return e.GetWeight(); };
      const auto r = PerformLazyAstarSearch<G>(g, ss, [&](const G&, const int64_t i) { return (bool)w.goal[i]; }, ok, ew, [&](const G&, const int64_t i) { return h[i]; }, limit); verdict(w, r.Path(), r.PathCost(), adm, "graph", ctx);
      std::vector<int64_t> si, gi; W w2 = w; w2.starts.clear(); for (auto& s : w.starts) { si.push_back(s.first); w2.starts.push_back({s.first, 0.0}); } for (int i = 0; i < w.n; i++) if (w.goal[i]) gi.push_back(i);
      std::function<double(const G&, const int64_t, const int64_t)> hg = [&](const G&, const int64_t a, const int64_t) { return h[a]; };
      const auto q = PerformLazyAstarSearch<G>(g, si, gi, ok, ew, hg, limit); verdict(w2, q.Path(), q.PathCost(), adm, "graph-lists", ctx);
      std::function<double(const int64_t&, const int64_t&)> hv = [&](const int64_t& a, const int64_t&) { return h[a]; }, dv = [&](const int64_t& a, const int64_t& b) { double m = inf; for (auto& e : w.out[a]) if (e.first == b) m = std::min(m, e.second); return m; }; std::function<bool(const int64_t&, const int64_t&)> okv = [&](const int64_t& a, const int64_t& b) { return !w.bad.count({(int)a, (int)b}); };
      const auto z = PerformLazyAstarSearch<int64_t, G>(g, si, gi, okv, dv, hv, limit); verdict(w2, z.Path(), z.PathCost(), adm, "graph-values", ctx);
      W w3 = w2; w3.bad.clear(); const auto d3 = togo(w3); std::function<double(const int64_t&, const int64_t&)> h3 = [&](const int64_t& a, const int64_t&) { return hk == 0 ? 0.0 : std::min(d3[a], 40.0); }; if (H::coin(3) && w.n > 1) { const int a = H::ri(0, w.n - 1), b = H::ri(0, w.n - 1); if (a != b) g.AddEdgeBetweenNodes(a, b, inf); }
      const auto y = PerformAstarSearch<int64_t, G>(g, si, gi, h3, limit); verdict(w3, y.Path(), y.PathCost(), true, "graph-eager", ctx);
      H::check(H::threw([&] { (void)PerformAstarSearch<int64_t, G>(g, {-1}, gi, h3, limit); }) == 1 && H::threw([&] { (void)PerformAstarSearch<int64_t, G>(g, si, {w.n}, h3, limit); }) == 1 && H::threw([&] { (void)PerformLazyAstarSearch<G>(g, std::vector<int64_t>{}, gi, ok, ew, hg, limit); }) == 1, "rejects", ctx); }
    H::ev(w.n > 2); if (!H::failed.empty()) break;
  }
  return H::done("random graphs of up to 20 nodes with parallel, blocked and zero-cost edges, several starts with costs, several goals, zero/exact/inconsistent/inadmissible heuristics, with and without duplicate limiting, all six entry points");
}
