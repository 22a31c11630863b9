#include "common.hpp"
#include <set>
#include <common_robotics_utilities/path_processing.hpp>
// SRC: math.cpp
using namespace common_robotics_utilities; namespace pp = path_processing;
struct P { double x = 0, y = 0; bool operator<(const P& o) const { return x != o.x ? x < o.x : y < o.y; } bool operator==(const P& o) const { return x == o.x && y == o.y; } };
using V = std::vector<P>; using E = std::pair<P, P>;
int main(int c, char** v)
{
  H::init(c, v);
  const auto dist = [](const P& a, const P& b) { return std::hypot(a.x - b.x, a.y - b.y); };
  const auto interp = [](const P& a, const P& b, const double r) { return r <= 0 ? a : r >= 1 ? b : P{a.x + (b.x - a.x) * r, a.y + (b.y - a.y) * r}; };
  while (H::more(0.4) && H::failed.empty())
  {
    const int n = H::ri(0, 14), how = H::ri(0, 2); V p(n); for (int i = 0; i < n; i++) p[i] = how == 0 ? P{H::rd(-3, 3), H::rd(-3, 3)} : how == 1 ? P{i * 1.0, (double)H::ri(0, 2)} : P{(double)H::ri(0, 3), (double)H::ri(0, 3)};
    const double strict = H::coin(3) ? 0.2 : H::rd(0, 1); const unsigned salt = H::ri(1, 1 << 20);
    // directed edge check; the pieces of an accepted edge may well be rejected
    const auto ok = [&](const P& a, const P& b) { unsigned h = salt; const double z[4] = {a.x, a.y, b.x, b.y}; for (double q : z) h = h * 1000003u ^ (unsigned)(int64_t)std::llround(q * 1e6); h ^= h >> 13; h *= 0x5bd1e995u; h ^= h >> 15; return (h % 1000) / 1000.0 >= strict; };
    std::set<E> accepted; const auto edge = [&](const P& a, const P& b) { if (!ok(a, b)) return false; accepted.insert({a, b}); return true; };
    const uint32_t mi = H::ri(0, 60), mf = H::ri(0, 60), bt = H::ri(0, 4); const double frac = H::rd(0, 1), iv = H::coin() ? 0.0 : H::rd(0.1, 1.5); const bool marg = H::coin();
    auto ctx = H::S("waypoints", n, "kind", how, "iterations", mi, "backtracking", bt, "resample", iv, "marginal", marg, "strictness", strict, "salt", salt); int draws = 0, full = 0; const auto unit = [&]() { draws++; return full && H::coin(9) ? std::nextafter(1.0, 0.0) : H::rd(0, 1) * 0.999999; }; full = H::coin();
    H::at("smooth", ctx); const V r = pp::ShortcutSmoothPath<P, V>(p, mi, mf, bt, frac, iv, marg, edge, dist, interp, unit);
    H::check((r.empty() == p.empty()) && (p.empty() || (r.front() == p.front() && r.back() == p.back())), "ends kept", ctx); H::check(draws <= 2 * (int)mi, "iterations", ctx); H::check(iv > 0 || r.size() <= p.size(), "no waypoint added", ctx);
    std::set<E> good = accepted; for (int i = 1; i < n; i++) good.insert({p[i - 1], p[i]});
    if (iv > 0 && !marg) for (auto& e : accepted) { const uint32_t m = (uint32_t)std::ceil(dist(e.first, e.second) / iv); P last = e.first; for (uint32_t k = 1; k < m; k++) { P q = interp(e.first, e.second, (double)k / (double)m); good.insert({last, q}); last = q; } good.insert({last, e.second}); }
    bool all = true; for (size_t i = 1; i < r.size(); i++) all = all && good.count({r[i - 1], r[i]}); H::check(all, "edges of the input or accepted", ctx);
    if (n >= 2) { const size_t s = H::ri(0, n - 1), e = H::ri(0, n - 1); accepted.clear(); V q; const int t = H::threw([&] { q = pp::AttemptShortcut<P, V>(p, s, e, bt, iv, marg, edge, dist, interp); }); H::check((t == 1) == (s >= e), "empty windows rejected", ctx); H::check(q.empty() || (q.size() >= 2 && q.front() == p[s] && q.back() == p[e]), "shortcut joins its ends", ctx); }
    double f = pp::ComputePercentCollisionFree<P, V>(p, edge); bool every = true; for (int i = 1; i < n; i++) every = every && ok(p[i - 1], p[i]); if (n == 1) every = ok(p[0], p[0]); H::check((f == 1.0) == every && f >= 0 && f <= 1, "fraction free", ctx);
    const double g = H::coin(5) ? -H::rd(0, 1) : H::rd(0.05, 2); auto c2 = ctx + H::S("distance", g); H::at("resample", c2); V s; const int t = H::threw([&] { s = pp::ResamplePath<P, V>(p, g, dist, interp); }); H::check((t == 1) == (n >= 2 && g <= 0), "distance rejected", c2);
    if (!t) { H::check(n == 0 || (s.front() == p.front() && s.back() == p.back()), "resampling keeps the ends", c2); if (n <= 1) H::check(s == p, "unchanged", c2); else { bool gaps = true; for (size_t i = 1; i < s.size(); i++) gaps = gaps && dist(s[i - 1], s[i]) <= g * (1 + 1e-9); H::check(gaps, "gaps", c2); size_t at = 0; bool kept = true; for (auto& w : p) { while (at < s.size() && !(s[at] == w)) at++; kept = kept && at < s.size(); } H::check(kept, "waypoints kept in order", c2); } }
    H::ev(r.size() < p.size());
  }
  return H::done("random paths of up to 14 waypoints, directed random edge checks, all settings, random streams up to just below one; resampling");
}
