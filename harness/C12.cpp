#include "common.hpp"
#include <common_robotics_utilities/utility.hpp>
#include <unordered_map>
#include <unordered_set>
#include <list>
using namespace common_robotics_utilities::utility;
template<class T> static bool eq(T a, T b) { return a == b || (a != a && b != b); }
template<class T> static void clamp(T v, T lo, T hi)
{
  const std::string in = H::S(sizeof(T), std::is_floating_point<T>::value, "clamp", +v, +lo, +hi); H::at("clamp", in); H::ev();
  for (int k = 0; k < 2; k++)
  {
    std::string msg; T r{}; const LoggingFunction lf = [&](const std::string& s) { msg += s; };
    const int t = H::threw([&] { r = k ? ClampValueAndLog<T>(v, lo, hi, lf) : ClampValue<T>(v, lo, hi); }); H::check(t == (hi >= lo ? 0 : 1), "clamp-rejects", in); if (t) continue;
    if (v != v) { H::check(r != r, "clamp-nan", in); continue; }
    H::check(r >= lo && r <= hi && r == (v < lo ? lo : v > hi ? hi : v), "clamp-value", in, +r); if (k) H::check(msg.empty() == (v == r), "clamp-log", in);
  }
}
template<class T> static void spread(T v, T lo, T mid, T hi)
{
  const std::string in = H::S(sizeof(T), "spread", +v, +lo, +mid, +hi); H::at("spread", in); H::ev();
  for (int k = 0; k < 2; k++)
  {
    std::string msg; T r{}; const LoggingFunction lf = [&](const std::string& s) { msg += s; };
    const int t = H::threw([&] { r = k ? SpreadValueAndLog<T>(v, lo, mid, hi, lf) : SpreadValue<T>(v, lo, mid, hi); }); H::check(t == (lo <= mid && mid <= hi ? 0 : 1), "spread-rejects", in); if (t) continue;
    T want = v; if (v >= mid && v < hi) want = hi; else if (v < mid && v > lo) want = lo;
    H::check(eq(r, want), "spread-value", in, +r); if (k) H::check(msg.empty() == eq(v, r), "spread-log", in);
  }
}
template<class T> static void bits(T v)
{
  const int w = sizeof(T) * 8;
  for (int p = 0; p < w; p++)
  {
    const std::string in = H::S("bits", w, +v, p); H::at("bits", in); H::ev();
    const bool b = (static_cast<uint64_t>(v) >> p) & 1; H::check(GetBit<T>(v, p) == b, "get-bit", in);
    const uint64_t m = 1ULL << p; H::check(SetBit<T>(v, p, true) == static_cast<T>(v | m) && SetBit<T>(v, p, false) == static_cast<T>(static_cast<uint64_t>(v) & ~m), "set-bit", in);
  }
}
template<class T> static void index(double u, T n)
{
  const std::string in = H::S("index", sizeof(T), u, +n); H::at("index", in); H::ev(); int calls = 0; T r{};
  const int t = H::threw([&] { r = GetUniformRandomIndex<T>([&] { calls++; return u; }, n); }); H::check(t == (n < 1 ? 1 : 0), "index-rejects", in); if (!t) { H::check(r >= 0 && r < n, "index-range", in, +r); if (static_cast<double>(n) < 9e15) H::check(r == static_cast<T>(std::floor(static_cast<long double>(u * static_cast<double>(n)))), "index-value", in, +r); }
}
template<class T> static void range(double u, T a, T b)
{
  const __int128 len = (__int128)b - a + 1; if (len > (__int128)std::numeric_limits<T>::max()) return;
  const std::string in = H::S("range", sizeof(T), u, +a, +b); H::at("range", in); H::ev(); T r{};
  const int t = H::threw([&] { r = GetUniformRandomInRange<T>([&] { return u; }, a, b); }); H::check(t == (a > b ? 1 : 0), "range-rejects", in); if (!t) { H::check(r >= a && r <= b, "range-inside", in, +r); if (u == 0) H::check(r == a, "range-first", in); if (len < (1LL << 40) && u > 0.9999999999999998) H::check(r == b, "range-last", in, +r); }
}
template<class C1, class C2> static void colls(const C1& a, const C2& b, const std::string& in)
{
  H::at("collections", in); H::ev(); std::map<int, int> ca, cb; for (int x : a) ca[x]++; for (int x : b) cb[x]++;
  bool sub = true; for (auto& p : cb) sub = sub && ca.count(p.first) && ca[p.first] >= p.second;
  H::check((IsSubset<int, C1, C2>(a, b)) == sub, "is-subset", in); H::check((CollectionsEqual<int, C1, C2>(a, b)) == (ca == cb), "collections-equal", in);
}
static void maps()
{
  std::vector<int> ks; std::vector<std::string> vs; std::vector<std::pair<int, std::string>> ps; std::map<int, std::string> want; const int n = H::ri(0, 8);
  for (int i = 0; i < n; i++) { ks.push_back(H::ri(0, 6)); vs.push_back(std::string(H::ri(0, 4), 'a' + H::ri(0, 20))); ps.push_back({ks[i], vs[i]}); want[ks[i]] = vs[i]; }
  const std::string in = H::S("map", H::SV(ks), H::SV(vs)); H::at("maps", in); H::ev();
  using UM = std::unordered_map<int, std::string>; const UM um(want.begin(), want.end());
  auto go = [&](const auto& m) { using M = std::decay_t<decltype(m)>;
    H::check((MakeFromKeysAndValues<int, std::string, M>(ps)) == m && (MakeFromKeysAndValues<int, std::string, M>(ks, vs)) == m, "make-map", in);
    const auto kk = GetKeysFromMapLike<int, std::string, M>(m); const auto kv = GetKeysAndValues<int, std::string, M>(m); H::check(kk.size() == m.size() && kv.size() == m.size() && std::set<int>(kk.begin(), kk.end()).size() == m.size(), "keys-count", in);
    size_t i = 0; for (auto& p : m) { H::check(i < kk.size() && kk[i] == p.first && kv[i].first == p.first && kv[i].second == p.second, "keys-order", in); i++; }
    for (int k = -1; k < 8; k++) H::check((RetrieveOrDefault<int, std::string, M>(m, k, "dflt")) == (want.count(k) ? want[k] : "dflt"), "retrieve", in, k); };
  go(want); go(um);
  { const std::set<int> s(ks.begin(), ks.end()); const auto kk = GetKeysFromSetLike<int>(s); H::check(std::vector<int>(s.begin(), s.end()) == kk, "set-keys", in); }
  { auto v2 = vs; v2.push_back("x"); H::check(H::threw([&] { (void)MakeFromKeysAndValues<int, std::string>(ks, v2); }) == 1, "make-map-lengths", in); if (n) { v2 = vs; v2.pop_back(); H::check(H::threw([&] { (void)MakeFromKeysAndValues<int, std::string>(ks, v2); }) == 1, "make-map-lengths", in); } }
}
int main(int c, char** v)
{
  H::init(c, v); const double inf = INFINITY, nan = NAN;
  const std::vector<double> ds = {0.0, -0.0, 1.0, -1.0, 0.5, inf, -inf, nan, 5e-324, -5e-324, 1.7976931348623157e308, -1.7976931348623157e308, 3.0, -2.5}; const std::vector<int64_t> is = {0, 1, -1, 2, -7, INT64_MAX, INT64_MIN, INT64_MAX - 1, 100};
  for (double a : ds) for (double b : ds) for (double e : ds) { clamp<double>(a, b, e); clamp<float>(a, b, e); for (double f : ds) { spread<double>(a, b, e, f); spread<float>(a, b, e, f); } }
  for (int64_t a : is) for (int64_t b : is) for (int64_t e : is) { clamp<int64_t>(a, b, e); clamp<int32_t>(a, b, e); clamp<uint64_t>(a, b, e); clamp<int8_t>(a, b, e); for (int64_t f : is) { spread<int64_t>(a, b, e, f); spread<int>(a, b, e, f); } }
  const double top = std::nextafter(1.0, 0.0); const std::vector<double> us = {0.0, 0.5, top, std::nextafter(top, 0.0), 1e-300, 5e-324, 0.25};
  for (double u : us) { for (int64_t n : is) { index<int64_t>(u, n); index<int32_t>(u, n); index<uint64_t>(u, n); index<int8_t>(u, n); for (int64_t m : is) { range<int64_t>(u, n, m); range<int32_t>(u, n, m); range<uint64_t>(u, n, m); range<int8_t>(u, n, m); } }
    for (int k = 0; k < 64; k++) for (int d = -8; d <= 8; d++) { const uint64_t n = (1ULL << k) + d; if (n >= 1) { index<uint64_t>(u, n); if ((int64_t)n > 0) index<int64_t>(u, n); } } }
  for (uint64_t x : {0ULL, ~0ULL, 1ULL, 0x8000000000000000ULL, 0xA5A5A5A55A5A5A5AULL, 0x80000000ULL, 0x100000000ULL}) { bits<uint8_t>(x); bits<uint16_t>(x); bits<uint32_t>(x); bits<uint64_t>(x); }
  while (H::more(0.25)) for (int k = 0; k < 50; k++)
  {
    std::vector<int> a, b; const int na = H::ri(0, 6); int nb = H::coin() ? na : H::ri(0, 6); for (int i = 0; i < na; i++) a.push_back(H::ri(0, 3)); for (int i = 0; i < nb; i++) b.push_back(H::ri(0, 3)); if (H::coin(4)) { b = a; std::shuffle(b.begin(), b.end(), H::rng); if (!b.empty() && H::coin()) b.pop_back(); }
    const std::string in = H::S("collections", H::SV(a), H::SV(b)); colls(a, b, in); colls(std::list<int>(a.begin(), a.end()), b, in); colls(std::set<int>(a.begin(), a.end()), std::set<int>(b.begin(), b.end()), in);
    maps(); const uint64_t x = H::r64(); bits<uint8_t>(x); bits<uint16_t>(x); bits<uint32_t>(x); bits<uint64_t>(x);
    const double u = H::rd(0, 1) < 0.3 ? top : H::rd(0, top); index<int64_t>(u, H::r64() >> H::ri(1, 63)); index<int32_t>(u, H::ri(0, INT32_MAX)); range<int64_t>(u, -(int64_t)(H::r64() >> H::ri(2, 60)), H::r64() >> H::ri(2, 60)); range<int32_t>(u, -H::ri(0, 1 << 29), H::ri(0, 1 << 29)); range<int16_t>(u, -H::ri(0, 1 << 13), H::ri(0, 1 << 13));
    const double p = H::rd(-5, 5), q = H::rd(-5, 5), r = H::rd(-5, 5), s = H::rd(-5, 5); clamp<double>(p, q, r); clamp<float>(p, std::min(q, r), std::max(q, r)); std::vector<double> o = {q, r, s}; std::sort(o.begin(), o.end()); spread<double>(p, o[0], o[1], o[2]);
  }
  { std::vector<std::string> ss = {"abc", "bc", "xbcx"}; H::check(CheckAllStringsForSubstring(ss, "bc") && !CheckAllStringsForSubstring(ss, "a") && CheckAllStringsForSubstring({}, "q"), "substring", "all strings"); }
  return H::done("edge-value grids for clamping, spreading, bits, index and range selection; random small collections and maps against counting oracles");
}
