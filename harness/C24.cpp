#include "common.hpp"
#include <common_robotics_utilities/simple_rrt_planner.hpp>
// SRC: 
using namespace common_robotics_utilities; namespace rp = simple_rrt_planner;
using T = rp::SimpleRRTPlannerTree<int>; using N = rp::SimpleRRTPlannerState<int>; using NV = rp::SimpleRRTPlannerStateVector<int>;
static bool linked(const NV& n)
{
  const int64_t m = n.size(); for (int64_t i = 0; i < m; i++) { const int64_t p = n[i].GetParentIndex(); if (p >= i) return false; if (p >= 0) { bool f = false; for (int64_t c : n[p].GetChildIndices()) f = f || c == i; if (!f) return false; } for (int64_t c : n[i].GetChildIndices()) if (c <= i || c >= m || n[c].GetParentIndex() != i) return false; } return true;
}
static bool same(const NV& a, const NV& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i].GetValueImmutable() != b[i].GetValueImmutable() || a[i].GetParentIndex() != b[i].GetParentIndex() || a[i].GetChildIndices() != b[i].GetChildIndices()) return false; return true; }
int main(int c, char** v)
{
  H::init(c, v);
  while (H::more(0.4) && H::failed.empty())
  {
    T t = H::coin() ? T() : T(H::ri(0, 20)); const int steps = H::ri(0, 20); std::vector<int64_t> par; std::vector<int> val; std::string hist;
    for (int s = 0; s < steps; s++)
    {
      const NV before = t.GetNodesImmutable(); const int x = H::ri(0, 99); const int64_t n = t.Size();
      if (H::coin(4) || !n) { H::at("add", hist); H::check(t.AddNode(x) == n, "index", hist); par.push_back(-1); val.push_back(x); hist += H::S("root", x); }
      else { const int64_t p = H::coin(5) ? (H::coin() ? n + H::ri(0, 2) : -H::ri(1, 3)) : H::ri(0, (int)n - 1); auto ctx = hist + H::S("parent", p); H::at("connect", ctx); int64_t r = -1; const int th = H::threw([&] { r = t.AddNodeAndConnect(x, p); }); H::check((th != 0) == (p < 0 || p >= n), "rejected", ctx); if (th) H::check(same(before, t.GetNodesImmutable()), "unchanged when rejected", ctx); else { H::check(r == n && t.GetNodeImmutable(p).GetChildIndices().size() == before[p].GetChildIndices().size() + 1, "index", ctx); par.push_back(p); val.push_back(x); hist = ctx; } }
      H::check(linked(t.GetNodesImmutable()) && T::CheckNodeLinkage(t.GetNodesImmutable()), "linked", hist); bool ok = t.Size() == (int64_t)val.size() && t.Empty() == val.empty(); for (size_t i = 0; ok && i < val.size(); i++) ok = t.GetNodeImmutable(i).GetValueImmutable() == val[i] && t.GetNodeImmutable(i).GetParentIndex() == par[i]; H::check(ok, "contents", hist); if (!H::failed.empty()) break;
    }
    if (!H::failed.empty()) break;
    std::vector<int64_t> goals; for (int i = 0; i < 3 && t.Size(); i++) goals.push_back(H::ri(0, (int)t.Size() - 1)); H::at("paths", hist); auto ps = rp::ExtractSolutionPaths<int, T>(t, goals); bool ok = ps.size() == goals.size(); for (size_t i = 0; ok && i < goals.size(); i++) { std::vector<int> w; for (int64_t g = goals[i]; g >= 0; g = par[g]) w.insert(w.begin(), val[g]); ok = ps[i] == w; } H::check(ok, "paths", hist);
    H::check(H::threw([&] { rp::ExtractSolutionPath<int, T>(t, t.Size() + H::ri(0, 2)); }) != 0, "no such goal", hist);
    // arbitrary collections
    NV m = t.GetNodesImmutable(); const int n = m.size(); if (H::coin(3)) { m.clear(); for (int i = H::ri(0, 5); i > 0; i--) { std::vector<int64_t> k; for (int j = H::ri(0, 2); j > 0; j--) k.push_back(H::ri(-1, 5)); m.emplace_back(i, H::ri(-2, 5), k); } } else for (int j = H::ri(0, 2); n && j > 0; j--) { auto& q = m[H::ri(0, n - 1)]; switch (H::ri(0, 2)) { case 0: q.SetParentIndex(H::ri(-2, n)); break; case 1: q.AddChildIndex(H::ri(-1, n)); break; default: if (!q.GetChildIndices().empty()) q.RemoveChildIndex(q.GetChildIndices()[0]); } }
    auto ctx = hist; for (auto& q : m) { ctx += H::S("node", q.GetParentIndex()) + ":"; for (auto k : q.GetChildIndices()) ctx += std::to_string(k) + ","; } H::at("check", ctx); const bool good = linked(m); H::check(T::CheckNodeLinkage(m) == good, "check", ctx); H::check(H::threw([&] { T u(m); }) == (good ? 0 : 1), "constructor", ctx); const NV was = t.GetNodesImmutable(); H::check(t.SetNodes(m) == good && same(t.GetNodesImmutable(), good ? m : was), "set nodes", ctx);
    H::ev(good && m.size() > 3);
  }
  return H::done("random sequences of up to 20 additions (missing parents included), extraction of several paths, random and slightly damaged node collections");
}
