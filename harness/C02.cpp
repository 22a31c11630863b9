// Bounded replay of the parallel loops: visit counts, thread numbers and exception delivery for every schedule/backend.
#include "common.hpp"
#include <common_robotics_utilities/parallelism.hpp>
#include <mutex>
#include <atomic>
using namespace common_robotics_utilities::parallelism;

struct Boom : std::runtime_error { using std::runtime_error::runtime_error; };
static void one(int which, int be, int threads, int64_t rs, int64_t re, int64_t boom)
{
  const std::string in = H::S(which == 0 ? "StaticIndex" : which == 1 ? "StaticRange" : which == 2 ? "DynamicIndex" : "DynamicRange", "backend", be, "threads", threads, "range", rs, re, "throws at", boom);
  H::at("loop", in); H::ev(re > rs + 1 && threads > 1);
  std::mutex m; std::map<int64_t, int> cnt; bool badthread = false; std::map<int, int> busy; bool shared = false; bool threwuser = false;
  auto enter = [&](int t) { std::lock_guard<std::mutex> l(m); if (t < 0 || t >= threads) badthread = true; if (busy[t]++ > 0) shared = true; };
  auto leave = [&](int t) { std::lock_guard<std::mutex> l(m); busy[t]--; };
  auto visit = [&](int64_t i) { std::lock_guard<std::mutex> l(m); cnt[i]++; if (i == boom) { threwuser = true; throw Boom("x"); } };
  auto fi = [&](const int32_t t, const int64_t i) { enter(t); try { visit(i); } catch (...) { leave(t); throw; } leave(t); };
  auto fr = [&](const ThreadWorkRange& w) { enter(w.GetThreadNum()); try { for (int64_t i = w.GetRangeStart(); i < w.GetRangeEnd(); i++) visit(i); } catch (...) { leave(w.GetThreadNum()); throw; } leave(w.GetThreadNum()); };
  const ParallelForBackend b = be == 0 ? ParallelForBackend::BEST_AVAILABLE : be == 1 ? ParallelForBackend::OPENMP : ParallelForBackend::ASYNC;
  const DegreeOfParallelism p(threads);
  int got = 0;
  try
  {
    if (which == 0) StaticParallelForIndexLoop(p, rs, re, fi, b); else if (which == 1) StaticParallelForRangeLoop(p, rs, re, fr, b);
    else if (which == 2) DynamicParallelForIndexLoop(p, rs, re, fi, b); else DynamicParallelForRangeLoop(p, rs, re, fr, b);
  }
  catch (const Boom&) { got = 1; } catch (const std::invalid_argument&) { got = 2; } catch (...) { got = 3; }
  if (re < rs) { H::check(got >= 2 && cnt.empty(), "inverted", in, "outcome", got); return; }
  H::check(!badthread, "thread-number-range", in); 
  H::check(!shared, "thread-number-shared", in);
  if (boom >= rs && boom < re) { H::check(got == 1 && threwuser, "exception-delivered", in, "outcome", got); for (auto& kv : cnt) H::check(kv.second == 1 && kv.first >= rs && kv.first < re, "visited-once", in, "index", kv.first, "count", kv.second); return; }
  H::check(got == 0, "spurious-exception", in, "outcome", got);
  H::check((int64_t)cnt.size() == re - rs, "every-index-visited", in, "visited", cnt.size());
  for (auto& kv : cnt) H::check(kv.second == 1 && kv.first >= rs && kv.first < re, "visited-once", in, "index", kv.first, "count", kv.second);
}
int main(int c, char** v)
{
  H::init(c, v);
  for (int which = 0; which < 4; which++) for (int be = 0; be < 3; be++) for (int t : {1, 2, 3, 5}) for (int64_t rs : {(int64_t)0, (int64_t)-3, (int64_t)4, (int64_t)1 << 40, INT64_MAX - 9}) for (int64_t len : {-1, 0, 1, 2, 3, 7, 9})
    for (int64_t boom : {(int64_t)-1, len - 1}) one(which, be, t, rs, rs + len, boom < 0 ? INT64_MIN : rs + boom);
  while (H::more(0.5)) { int64_t rs = H::ri(-50, 50), len = H::ri(0, 60); one(H::ri(0, 3), H::ri(0, 2), H::ri(1, 9), rs, rs + len, H::coin(3) ? rs + H::ri(0, len) : INT64_MIN); }
  H::sample("DynamicRange backend ASYNC threads 5 range 4..13 throws at 12");
  return H::done("all four loops x backends x thread counts x edge ranges, then random; non-trivial: more than one index and thread");
}
