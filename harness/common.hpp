// Shared scaffolding of the bounded replay/search programs. They exercise the real code of /repo and compare it with an oracle.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <limits>
#include <chrono>
#include <random>
#include <set>
#include <map>
#include <string>
#include <vector>
#include <sstream>
#include <fstream>
#include <iostream>
#include <functional>
#include <algorithm>
#include <stdexcept>
#include <unistd.h>
#include <signal.h>
extern "C" void __sanitizer_set_death_callback(void (*)()) __attribute__((weak));
namespace H
{
inline std::mt19937_64 rng;
inline uint64_t seed = 1;
inline double limit = 30;
inline std::chrono::steady_clock::time_point t0;
inline long evals = 0, nontriv = 0;
inline std::set<std::string> failed;
inline std::vector<std::string> samples;
inline char crumb[4096] = "start";
inline char crumbkey[128] = "crash";
inline bool thorough = false;
inline std::map<std::string, std::vector<std::string>> hints;
inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
inline bool more(double frac = 1.0) { return elapsed() < limit * frac; }
inline void raw(const char* s) { ssize_t r = write(1, s, strlen(s)); (void)r; }
inline void died() { fflush(stdout); raw("\nFAIL "); raw(crumbkey); raw(" | crash while running: "); raw(crumb); raw("\n"); }
inline void onsig(int s) { raw(s == SIGALRM ? "\nhang\n" : "\nsignal\n"); died(); _exit(3); }
// Remember what is about to be executed, for crashes and hangs (60 s per step).
inline void at(const std::string& key, const std::string& what)
{ strncpy(crumbkey, key.c_str(), sizeof crumbkey - 1); strncpy(crumb, what.c_str(), sizeof crumb - 1); for (char* c = crumb; *c; c++) if (*c == '\n') *c = ' '; alarm(60); }
inline void fail(const std::string& key, const std::string& what)
{
  if (failed.insert(key).second) { std::string w = what.substr(0, 1500); for (auto& c : w) if (c == '\n') c = ' '; printf("FAIL %s | %s\n", key.c_str(), w.c_str()); fflush(stdout); }
}
template<class... A> std::string S(const A&... a) { std::ostringstream o; o.precision(17); (void)std::initializer_list<int>{((o << a << " "), 0)...}; return o.str(); }
template<class V> std::string SV(const V& v) { std::ostringstream o; o.precision(17); o << "["; size_t n = 0; for (const auto& x : v) { if (n++ > 40) { o << "..."; break; } o << x << ","; } o << "]"; return o.str(); }
inline void ev(bool nt = true) { evals++; if (nt) nontriv++; }
inline void sample(const std::string& s) { if (samples.size() < 8) samples.push_back(s); }
template<class... A> void check(bool c, const std::string& key, const A&... a) { if (!c) fail(key, S(a...)); }
inline uint64_t r64() { return rng(); }
inline int64_t ri(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(rng() % (static_cast<uint64_t>(hi - lo) + 1)); }
inline double rd(double lo, double hi) { return lo + (hi - lo) * (static_cast<double>(rng() >> 11) / 9007199254740992.0); }
inline bool coin(int n = 2) { return rng() % n == 0; }
template<class F> int threw(F f) { try { f(); return 0; } catch (const std::exception&) { return 1; } catch (...) { return 2; } }
inline std::vector<int64_t> hintints()
{
  std::vector<int64_t> r; for (auto& kv : hints) for (auto& s : kv.second) { try { r.push_back(std::stoll(s)); } catch (...) {} } return r;
}
inline void init(int argc, char** argv)
{
  seed = argc > 1 ? strtoull(argv[1], nullptr, 10) : 1; limit = argc > 2 ? atof(argv[2]) : 30; rng.seed(seed); t0 = std::chrono::steady_clock::now();
  const char* t = getenv("VERIF_TIER"); thorough = t && std::string(t) == "thorough";
  if (const char* h = getenv("VERIF_HINTS")) { std::ifstream f(h); std::string l; while (std::getline(f, l)) { auto p = l.find('='); if (p != std::string::npos) hints[l.substr(0, p)].push_back(l.substr(p + 1)); } }
  signal(SIGALRM, onsig);
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(died); 
  else { signal(SIGSEGV, onsig); }
  signal(SIGABRT, onsig);
  signal(SIGFPE, onsig);
}
inline int done(const char* rule)
{
  alarm(0);
  printf("STAT evaluations=%ld\nSTAT nontrivial=%ld\nRULE %s\n", evals, nontriv, rule);
  for (auto& s : samples) printf("SAMPLE %s\n", s.c_str());
  fflush(stdout);
  return failed.empty() ? 0 : 1;
}
}
