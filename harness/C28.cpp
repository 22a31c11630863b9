#include "common.hpp"
#include <common_robotics_utilities/simple_task_planner.hpp>
// SRC: 
using namespace common_robotics_utilities; namespace tp = simple_task_planner;
using V = std::vector<int>; using PI = tp::ActionPrimitiveInterface<int>; using PS = std::shared_ptr<PI>; using W = tp::ActionPrimitiveWrapper<int>; using C = tp::ActionPrimitiveCollection<int>;
struct Step { int from, prim; V out; };
static std::string names(const C& c) { std::string s; for (auto& p : c.Primitives()) s += p->Name() + ","; return s; }
static void collection()
{
  C c; std::vector<std::string> m; std::string hist; int logs = 0; if (H::coin()) c.SetLoggingFunction([&](const std::string&) { logs++; });
  for (int i = H::ri(1, 15); i > 0; i--)
  {
    const std::string n(1, (char)('a' + H::ri(0, 5))); std::string was = names(c);
    if (H::coin(4)) { std::unordered_set<std::string> r; for (int k = H::ri(0, 3); k > 0; k--) r.insert(std::string(1, (char)('a' + H::ri(0, 6)))); if (r.size() == 1 && H::coin()) c.UnregisterPrimitiveByName(*r.begin()); else c.UnregisterPrimitivesByName(r); std::vector<std::string> k; for (auto& x : m) if (!r.count(x)) k.push_back(x); m = k; hist += " remove:"; for (auto& x : r) hist += x; }
    else { hist += " add:" + n; const bool dup = std::find(m.begin(), m.end(), n) != m.end(); const int th = H::threw([&] { c.RegisterPrimitive(std::make_shared<W>([](const int&) { return true; }, [](const int&) { return tp::OutcomesWithCosts<int>(); }, [](const int& s) { return V{s}; }, n)); }); H::check((th != 0) == dup, "duplicate names are rejected", hist); if (!dup) m.push_back(n); else H::check(names(c) == was, "unchanged when rejected", hist); }
    std::string w; for (auto& x : m) w += x + ","; H::check(names(c) == w, "contents", hist, "holds", names(c), "expected", w); H::ev(m.size() > 1);
  }
}
static void planning()
{
  // states 0..n-1; primitive p applies at some states, and offers outcomes with costs; executing it gives one or several of the outcomes
  const int n = H::ri(2, 9), np = H::ri(1, 4), goal = H::ri(0, n - 1); struct P { std::vector<bool> cand; std::vector<std::vector<std::pair<int, double>>> out; }; std::vector<P> ps(np); std::string ctx = H::S("states", n, "goal", goal);
  for (int p = 0; p < np; p++) { ctx += " primitive"; for (int s = 0; s < n; s++) { ps[p].cand.push_back(H::coin()); ps[p].out.push_back({}); ctx += H::S(" ", s, ps[p].cand[s] ? ":" : "not:"); for (int k = H::ri(0, 3); k > 0; k--) { ps[p].out[s].push_back({(int)H::ri(0, n - 1), (double)H::ri(0, 4)}); ctx += H::S(ps[p].out[s].back().first, "/", ps[p].out[s].back().second); } } }
  std::vector<Step> done; C c; bool badout = false; for (int p = 0; p < np; p++) c.RegisterPrimitive(std::make_shared<W>([&ps, p](const int& s) { return (bool)ps[p].cand[s]; }, [&, p](const int& s) { if (!ps[p].cand[s]) badout = true; tp::OutcomesWithCosts<int> o; for (auto& x : ps[p].out[s]) o.emplace_back(x.first, x.second); return o; }, [&, p](const int& s) { V o; for (auto& x : ps[p].out[s]) if (o.empty() || H::coin()) o.push_back(x.first); done.push_back({s, p, o}); return o; }, std::to_string(p)));
  V starts; for (int k = H::ri(0, 3); k > 0; k--) starts.push_back(H::ri(0, n - 1)); ctx += " starts " + H::SV(starts); auto comp = [&](const int& s) { return s == goal; };
  // cheapest cost from each state
  std::vector<double> d(n, 1e9); d[goal] = 0; for (int r = 0; r < n; r++) for (int s = 0; s < n; s++) for (auto& p : ps) if (p.cand[s]) for (auto& o : p.out[s]) d[s] = std::min(d[s], o.second + d[o.first]);
  double best = 1e9; for (int s : starts) best = std::min(best, d[s]); tp::StateHeuristicFunction<int> h; if (H::coin()) h = [&](const int& s) { return d[s] >= 1e9 ? 0.0 : d[s]; };
  H::at("plan", ctx); bool valid = true; double cost = 0; int64_t len = 0; auto chain = [&](const tp::TaskStateAstarResult<int>& r) { valid = true; cost = 0; auto& path = r.Path(); len = path.size(); if (len) valid = path.back().Outcome() == goal && path[0].PrimitiveIndex() == -1; for (size_t i = 1; i < path.size(); i++) { double w = 1e9; const int p = path[i].PrimitiveIndex(); if (p < 0 || p >= np || !ps[p].cand[path[i - 1].Outcome()]) { valid = false; return; } for (auto& o : ps[p].out[path[i - 1].Outcome()]) if (o.first == path[i].Outcome()) w = std::min(w, o.second); cost += w; if (w >= 1e9) valid = false; } };
  const int th = H::threw([&] { auto r = tp::PlanTaskStateSequence<int>(c, comp, starts, h); chain(r); H::check(valid && (len == 0) == (best >= 1e9), "plan is a chain of outcomes to a complete state, if there is one", ctx); if (len) { H::check(std::find(starts.begin(), starts.end(), r.Path()[0].Outcome()) != starts.end(), "plan starts at a start", ctx); H::check(std::abs(cost - best) < 1e-9 && std::abs(r.PathCost() - best) < 1e-9, "plan is the cheapest", ctx); } }); H::check((th != 0) == starts.empty(), "planning rejected only without a start", ctx); H::check(!badout, "outcomes only asked of candidates", ctx);
  const int tn = H::threw([&] { auto r = tp::GetNextPrimitiveToExecute<int>(c, comp, starts, h); chain(r.PlanningResult()); const int64_t b = r.SelectedOutcomeIndex(); H::check(valid && len > 0, "next: plan", ctx); auto& path = r.PlanningResult().Path(); H::check(b >= 0 && b < (int64_t)starts.size() && starts[b] == path[0].Outcome(), "next: outcome chosen", ctx); H::check(len == 1 ? !r.ActionPrimitive() : r.ActionPrimitive() && r.ActionPrimitive() == c.Primitives()[path[1].PrimitiveIndex()], "next: primitive", ctx); }); H::check((tn != 0) == (best >= 1e9), "next: rejected only without a plan", ctx);
  // performing it, with some of the callbacks
  const int max = H::coin() ? -1 : H::ri(0, 5); done.clear(); V last = starts, picked; int pre = 0, post = 0, told = 0; bool ok = true; tp::PreExecutionCallbackFunction<int> f1; tp::PostExecutionCallbackFunction<int> f2; tp::PostOutcomeCallbackFunction<int> f3; ctx += H::S(" at most", max);
  const bool cycle = [&] { for (auto& p : ps) for (int s = 0; s < n; s++) for (auto& o : p.out[s]) if (o.second == 0) return true; return false; }(); if (cycle && max < 0) return;   // executions may go round for ever
  if (H::coin()) f1 = [&](const int& s, const PS& p, const tp::TaskStateAstarResult<int>& r) { ok = ok && pre == (int)done.size() && p == c.Primitives()[r.Path()[1].PrimitiveIndex()] && s == r.Path()[0].Outcome(); pre++; };
  if (H::coin()) f2 = [&](const V& o) { ok = ok && !done.empty() && post + 1 == (int)done.size() && o == done.back().out; post++; };
  if (H::coin()) f3 = [&](const V& o, const int64_t i, const tp::TaskStateAstarResult<int>& r) { ok = ok && o == (done.empty() ? starts : done.back().out) && i >= 0 && i < (int64_t)o.size() && o[i] == r.Path()[0].Outcome(); picked.push_back(o[i]); told++; };
  H::at("execute", ctx); V tr; const bool one = starts.size() == 1 && H::coin(); const int te = H::threw([&] { tr = one ? tp::PerformSingleTaskExecution<int>(c, comp, starts[0], max, h, std::hash<int>(), std::equal_to<int>(), f1, f2, f3) : tp::PerformSingleTaskExecution<int>(c, comp, starts, max, h, std::hash<int>(), std::equal_to<int>(), f1, f2, f3); });
  std::string run = ctx + " performed"; for (auto& s : done) run += H::S(s.prim, "on", s.from, "->", H::SV(s.out)); run += " trace " + H::SV(tr); const int k = done.size(); H::check(max < 0 || k <= max, "no more executions than allowed", run); for (int i = 0; i < k; i++) { H::check(ps[done[i].prim].cand[done[i].from], "only candidates are performed", run); auto& o = i ? done[i - 1].out : starts; H::check(std::find(o.begin(), o.end(), done[i].from) != o.end(), "performed on an outcome", run); }
  H::check(ok, "callbacks are told what happens", run); if (te) { H::check(max != 0, "nothing fails when nothing is allowed", run); H::check((k ? done.back().out : starts).empty() || true, "fails", run); return; }
  for (int i = 0; i < (int)tr.size(); i++) { auto& o = i ? done[std::min(i, k) - 1].out : starts; H::check(i <= k && std::find(o.begin(), o.end(), tr[i]) != o.end(), "states recorded are outcomes", run); if (i < k) H::check(done[i].from == tr[i], "states recorded are those performed on", run); }
  H::check((int)tr.size() == k || ((int)tr.size() == k + 1 && tr.back() == goal), "one state more only when complete", run); if (max < 0 || k < max) H::check((int)tr.size() == k + 1, "stops early only when complete", run);
  H::check((!f1 || pre == k) && (!f2 || post == k) && (!f3 || (told == (int)tr.size() && picked == tr)), "callbacks are told everything", run); H::ev(k > 1);
}
int main(int c, char** v) { H::init(c, v); while (H::more(0.4) && H::failed.empty()) { collection(); if (H::failed.empty()) planning(); } return H::done("random collections of up to 15 changes, random tasks of up to 9 states and 4 primitives, random outcomes, all combinations of callbacks"); }
