#include "common.hpp"
#include <common_robotics_utilities/simple_rrt_planner.hpp>
// SRC: 
#include <set>
using namespace common_robotics_utilities; namespace rp = simple_rrt_planner;
using T = rp::SimpleRRTPlannerTree<int>; using A = rp::BiRRTActiveTreeType; using ST = rp::BiRRTSampleType; using P = std::vector<int>;
// states are numbered: every state produced is new, so the step that produced it is known
struct World { int next = 0; std::map<int, int> par[2]; std::set<int> roots[2]; uint64_t salt = 0; bool goal(int s) const { return (s * 2654435761u + salt) % 7 == 0; } bool conn(int a, int b) const { return ((a * 31 + b) * 2654435761u + salt) % 5 == 0; } };
static void grow(World& w, T& t, int which, int n) { for (int i = 0; i < n; i++) { const int s = w.next++; if (i == 0 || H::coin(4)) { t.AddNode(s); w.roots[which].insert(s); } else { const int64_t p = H::ri(0, (int)t.Size() - 1); t.AddNodeAndConnect(s, p); w.par[which][s] = t.GetNodeImmutable(p).GetValueImmutable(); } } }
static rp::ForwardPropagation<int> extend(World& w, int which, int from, bool& bad)
{
  rp::ForwardPropagation<int> r; const int n = H::ri(0, 4); std::vector<int> id; for (int i = 0; i < n; i++) { const int s = w.next++; int rel = H::ri(-2, i - 1); if (H::coin(60)) rel = i + H::ri(0, 2); if (rel >= i) bad = true; w.par[which][s] = rel < 0 ? from : rel < i ? id[rel] : -1; id.push_back(s); r.emplace_back(s, rel); } return r;
}
static int64_t pick(const T& t, bool& bad) { if (H::coin(150)) { bad = true; return H::coin() ? t.Size() + H::ri(0, 2) : -1; } return H::ri(0, (int)t.Size() - 1); }
static bool chain(const World& w, const P& p, size_t a, size_t b, int which) { for (size_t i = a; i + 1 < b; i++) { auto q = w.par[which].find(which == 0 ? p[i + 1] : p[i]); if (q == w.par[which].end() || q->second != (which == 0 ? p[i] : p[i + 1])) return false; } return true; }
static bool grown(const World& w, const T& t, int which, size_t n0, size_t n1) { if (t.Size() != (int64_t)n1) return false; for (size_t i = n0; i < n1; i++) { const auto& n = t.GetNodeImmutable(i); auto q = w.par[which].find(n.GetValueImmutable()); if (n.GetParentIndex() < 0 || q == w.par[which].end() || t.GetNodeImmutable(n.GetParentIndex()).GetValueImmutable() != q->second) return false; } return T::CheckNodeLinkage(t.GetNodesImmutable()); }
int main(int c, char** v)
{
  H::init(c, v);
  while (H::more(0.4) && H::failed.empty())
  {
    World w; w.salt = H::ri(0, 1000); const bool bi = H::coin(), single = H::coin(), cbadd = H::coin(), cbgoal = H::coin(); bool bad = false; const int iters = H::ri(0, 12); int it = 0; size_t added = 0, total[2] = {0, 0}; auto ctx = H::S("bi", bi) + H::S("single", single) + H::S("added-callback", cbadd) + H::S("goal-callback", cbgoal) + H::S("salt", w.salt) + H::S("iterations", iters); H::at("plan", ctx);
    T s, g; const int n0 = H::ri(0, 4), n1 = H::ri(0, 4); grow(w, s, 0, n0); if (bi) grow(w, g, 1, n1); const T s0 = s, g0 = g; std::vector<P> paths; size_t goals = 0; bool sizes = true, told = true, late = false; int th = 0;
    if (!bi)
    {
      bool found = false; auto sample = [&] { return H::ri(0, 9); }; auto nearest = [&](const T& t, const int&) { return pick(t, bad); }; auto prop = [&](const int& f, const int&) { auto r = extend(w, 0, f, bad); total[0] += r.size(); return r; };
      rp::RRTStateAddedCallbackFunction<int, T> add; if (cbadd) add = [&](T& t, const int64_t i) { added++; told = told && i == t.Size() - 1; }; rp::RRTGoalReachedCallbackFunction<int, T> reach; if (cbgoal) reach = [&](T& t, const int64_t i) { goals++; found = true; told = told && i >= 0 && i < t.Size() && w.goal(t.GetNodeImmutable(i).GetValueImmutable()); };
      auto check = [&](const int& x) { return w.goal(x); }; auto stop = [&](const int64_t n) { sizes = sizes && n == s.Size(); if (single && found) late = true; return it++ >= iters; };
      th = H::threw([&] { if (single) { P p = rp::RRTPlanSinglePath<int, T, int>(s, sample, nearest, prop, add, check, reach, stop).Path(); if (!p.empty()) paths.push_back(p); } else { const auto r = rp::RRTPlanMultiPath<int, T, int>(s, sample, nearest, prop, add, check, reach, stop); for (auto& p : r.Paths()) paths.push_back(p); } });
      H::check((th != 0) == (n0 == 0 || bad), "throws", ctx); if (th) continue;
      size_t accepted = 0; for (int64_t i = 0; i < s.Size(); i++) accepted += w.goal(s.GetNodeImmutable(i).GetValueImmutable()); H::check(grown(w, s, 0, n0, n0 + total[0]), "growth", ctx); H::check(single ? paths.size() == (accepted ? 1 : 0) : paths.size() == accepted, "one path per goal", ctx); H::check(!cbgoal || goals == accepted, "goal callbacks", ctx);
      for (auto& p : paths) H::check(!p.empty() && w.roots[0].count(p[0]) && w.goal(p.back()) && chain(w, p, 0, p.size(), 0), "path", ctx);
    }
    else
    {
      bool found = false; std::vector<std::pair<int, int>> met; auto type = [&](const T&, const T&, const A) { return H::coin() ? ST::TREE_SAMPLE : ST::STATE_SAMPLE; }; auto sample = [&] { return -1; }; auto tsample = [&](const T& t, const A) { return pick(t, bad); };
      auto nearest = [&](const T& t, const int&, const A) { return pick(t, bad); }; auto prop = [&](const int& f, const int&, const A a) { const int q = a == A::START_TREE ? 0 : 1; auto r = extend(w, q, f, bad); total[q] += r.size(); return r; };
      rp::BiRRTStateAddedCallbackFunction<int, T> add; if (cbadd) add = [&](T& t, const int64_t i, const A a) { added++; told = told && i == t.Size() - 1 && &t == (a == A::START_TREE ? &s : &g); }; rp::BiRRTGoalBridgeCallbackFunction<int, T> reach; if (cbgoal) reach = [&](T& a, const int64_t i, T& b, const int64_t j, const A) { goals++; found = true; told = told && &a == &s && &b == &g && i >= 0 && i < a.Size() && j >= 0 && j < b.Size(); };
      auto conn = [&](const int& x, const int& y, const A a) { const bool r = w.conn(x, y); const bool st = a == A::START_TREE; if (r) met.emplace_back(st ? x : y, st ? y : x); return r; }; auto act = [&](const T&, const T&, const A) { return H::coin() ? A::START_TREE : A::GOAL_TREE; }; auto stop = [&](const int64_t a, const int64_t b) { sizes = sizes && a == s.Size() && b == g.Size(); if (single && found) late = true; return it++ >= iters; };
      th = H::threw([&] { if (single) { P p = rp::BiRRTPlanSinglePath<int, T>(s, g, type, sample, tsample, nearest, prop, add, conn, reach, act, stop).Path(); if (!p.empty()) paths.push_back(p); } else { const auto r = rp::BiRRTPlanMultiPath<int, T>(s, g, type, sample, tsample, nearest, prop, add, conn, reach, act, stop); for (auto& p : r.Paths()) paths.push_back(p); } });
      H::check((th != 0) == (n0 == 0 || n1 == 0 || bad), "throws", ctx); if (th) continue;
      H::check(grown(w, s, 0, n0, n0 + total[0]) && grown(w, g, 1, n1, n1 + total[1]), "growth", ctx); H::check(single ? paths.size() == (met.empty() ? 0 : 1) : paths.size() == met.size(), "one path per bridge", ctx); H::check(!cbgoal || goals == met.size(), "bridge callbacks", ctx);
      for (auto& p : paths) { bool ok = false; for (size_t k = 1; k < p.size() && !ok; k++) ok = std::count(met.begin(), met.end(), std::make_pair(p[k - 1], p[k])) && chain(w, p, 0, k, 0) && chain(w, p, k, p.size(), 1); H::check(ok && w.roots[0].count(p[0]) && w.roots[1].count(p.back()), "path", ctx); }
    }
    H::check(sizes, "termination check is given the sizes", ctx); H::check(told, "callback arguments", ctx); H::check(!late, "planning stops once there is a solution", ctx); H::check(!cbadd || added == total[0] + total[1], "state-added callbacks", ctx);
    bool kept = s.Size() >= s0.Size() && g.Size() >= g0.Size(); for (int64_t i = 0; kept && i < s0.Size(); i++) kept = s.GetNodeImmutable(i).GetValueImmutable() == s0.GetNodeImmutable(i).GetValueImmutable() && s.GetNodeImmutable(i).GetParentIndex() == s0.GetNodeImmutable(i).GetParentIndex(); for (int64_t i = 0; kept && i < g0.Size(); i++) kept = g.GetNodeImmutable(i).GetValueImmutable() == g0.GetNodeImmutable(i).GetValueImmutable() && g.GetNodeImmutable(i).GetParentIndex() == g0.GetNodeImmutable(i).GetParentIndex(); H::check(kept, "nodes given keep value and parent", ctx);
    H::ev(!paths.empty());
  }
  return H::done("single- and bidirectional planning with every combination of callbacks, random subtrees propagated, initial trees of up to 4 nodes with several roots, up to 12 iterations");
}
