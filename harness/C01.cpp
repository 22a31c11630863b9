// Bounded replay of CalcStaticThreadRangeStartAndEnd against the partition rule.
#include "common.hpp"
#include <common_robotics_utilities/parallelism.hpp>
using namespace common_robotics_utilities::parallelism;
typedef __int128 W;
static void one(int64_t rs, int64_t re, int64_t n, int64_t t)
{
  H::at("partition", H::S("range", rs, re, "threads", n, "index", t)); H::ev(re > rs && n > 1);
  const bool bad = re < rs || n <= 0 || t < 0 || t >= n;
  std::pair<int64_t, int64_t> r; bool thr = false;
  try { r = CalcStaticThreadRangeStartAndEnd(rs, re, n, t); } catch (const std::exception&) { thr = true; }
  const std::string in = H::S("range_start", rs, "range_end", re, "num_threads", n, "thread_num", t, "->", r.first, r.second, thr ? "threw" : "");
  if (bad || thr) { H::check(bad == thr, "validation", in); return; }
  const W q = ((W)re - rs) / n, m = ((W)re - rs) % n;
  const W s = rs + t * q + (t < m ? (W)t : m), e = rs + (t + 1) * q + (t + 1 < m ? (W)(t + 1) : m);
  H::check(s == r.first && e == r.second, "partition", in);
}
int main(int c, char** v)
{
  H::init(c, v);
  for (auto a : H::hintints()) for (auto b : H::hintints()) for (auto n : {(int64_t)1, (int64_t)2, (int64_t)7}) { if (b >= a && (W)b - a > INT64_MAX) continue; one(a, b, n, 0); one(a, b, n, n - 1); }
  { auto& h = H::hints; int64_t x[4] = {0, 0, 0, 0}; int k = 0; for (const char* nm : {"range_start", "range_end", "num_threads", "thread_num"}) { for (auto& kv : h) if (kv.first.find(nm) != std::string::npos) x[k] = atoll(kv.second[0].c_str()); k++; } if (!(x[1] >= x[0] && (W)x[1] - x[0] > INT64_MAX)) one(x[0], x[1], x[2], x[3]); }
  for (int64_t rs = -4; rs <= 5; rs++) for (int64_t re = rs - 2; re <= rs + 40; re++) for (int64_t n = -1; n <= 14; n++) for (int64_t t = -1; t <= n + 1; t++) one(rs, re, n, t);
  const int64_t edge[] = {INT64_MIN, INT64_MIN + 1, -1, 0, 1, 2, 1000, INT64_MAX / 2, INT64_MAX - 1, INT64_MAX, (int64_t)INT32_MAX, (int64_t)INT32_MAX + 1, (int64_t)UINT32_MAX, (int64_t)UINT32_MAX + 1};
  for (auto a : edge) for (auto b : edge) for (auto n : edge) for (auto t : {(int64_t)0, (int64_t)1, (int64_t)5, n == INT64_MIN ? n : n - 1, n / 2}) { if (b >= a && (W)b - a > INT64_MAX) continue; one(a, b, n, t); }
  while (H::more(0.2)) for (int i = 0; i < 1000; i++)
  {
    int sh = H::ri(0, 63); int64_t a = (int64_t)H::r64() >> sh; int64_t len = (int64_t)(H::r64() >> 1) >> H::ri(0, 62); if ((W)a + len > INT64_MAX) len = INT64_MAX - (a > 0 ? a : 0); if ((W)a + len > INT64_MAX) continue;
    int64_t n = 1 + ((int64_t)(H::r64() >> 1) >> H::ri(1, 62)); one(a, a + len, n, (int64_t)(H::r64() >> 1) % n);
  }
  return H::done("exhaustive small ranges, boundary values and random ranges/thread counts; non-trivial: non-empty range on more than one thread");
}
