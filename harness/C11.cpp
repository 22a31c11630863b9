#include "common.hpp"
#include <common_robotics_utilities/maybe.hpp>
#include <memory>
using namespace common_robotics_utilities;
// Elements that count themselves by address: constructing over a live one, destroying a dead one or touching a dead one is recorded.
static std::set<const void*> live; static std::string ctx;
template<int K> struct El
{
  int64_t v; bool moved = false; std::string big;
  void born() { H::check(live.insert(this).second, "constructed-over-live", ctx); }
  void ok() const { H::check(live.count(this) == 1, "dead-object-used", ctx); }
  explicit El(int64_t x) : v(x), big(40, 'x') { born(); }
  El(const El& o) : v(o.v), moved(o.moved), big(o.big) { o.ok(); born(); }
  El(El&& o) noexcept : v(o.v), moved(o.moved), big(std::move(o.big)) { o.ok(); o.moved = true; born(); }
  El& operator=(const El& o) { ok(); o.ok(); v = o.v; moved = o.moved; big = o.big; return *this; }
  El& operator=(El&& o) noexcept { ok(); o.ok(); if (this != &o) { v = o.v; moved = o.moved; big = std::move(o.big); o.moved = true; } return *this; }
  ~El() { H::check(live.erase(this) == 1, "destroyed-dead", ctx); }
};
using A = El<0>; using B = El<1>; using U = internal::TaggedUnion<A, B>; using M = OwningMaybe<B>;
struct St { int alt; int64_t v; bool moved = false; };   // model: alternative 0/1, value; moved: value taken away
static void checku(const U& u, const St& s)
{
  H::check((u.type_ == U::TYPE_B) == (s.alt == 1) && (u.type_ == U::TYPE_A) == (s.alt == 0), "union-tag", ctx);
  if ((u.type_ == U::TYPE_A) == (s.alt == 0)) { if (s.alt == 0) { u.value_a_.ok(); H::check(s.moved || (u.value_a_.v == s.v && u.value_a_.big.size() == 40 && !u.value_a_.moved), "union-value", ctx); } else { u.value_b_.ok(); H::check(s.moved || (u.value_b_.v == s.v && u.value_b_.big.size() == 40 && !u.value_b_.moved), "union-value", ctx); } }
}
static void checkm(M& m, const St& s)
{
  const M& c = m; H::check(c.HasValue() == (s.alt == 1) && static_cast<bool>(c) == (s.alt == 1), "maybe-has", ctx);
  const int t1 = H::threw([&] { (void)c.Value(); }), t2 = H::threw([&] { (void)m.Value(); }); H::check(t1 == (s.alt == 1 ? 0 : 1) && t2 == t1, "maybe-read-throws", ctx);
  if (s.alt == 1 && c.HasValue()) { c.Value().ok(); H::check(&c.Value() == &m.Value(), "maybe-value", ctx); H::check(s.moved || (c.Value().v == s.v && c.Value().big.size() == 40 && !c.Value().moved), "maybe-value", ctx); }
}
static void unions(int steps)
{
  live.clear();
  {
    std::vector<std::unique_ptr<U>> us; std::vector<St> st; ctx = "union:";
    auto fresh = [&]() { const int64_t x = H::ri(0, 1000000); if (H::coin()) { if (H::coin()) { A a(x); us.push_back(std::make_unique<U>(a)); a.ok(); H::check(a.v == x && !a.moved, "source-unchanged", ctx); } else us.push_back(std::make_unique<U>(A(x))); st.push_back({0, x}); } else { if (H::coin()) { B b(x); us.push_back(std::make_unique<U>(b)); H::check(b.v == x && !b.moved, "source-unchanged", ctx); } else us.push_back(std::make_unique<U>(B(x))); st.push_back({1, x}); } };
    for (int k = 0; k < 3; k++) fresh();
    for (int n = 0; n < steps; n++)
    {
      const size_t i = H::ri(0, us.size() - 1), j = H::ri(0, us.size() - 1); const int op = H::ri(0, 5); ctx += H::S("op", op, "i", i, "j", j, ";"); H::at("union-crash", ctx);
      if (op == 0) fresh();
      else if (op == 1) { us.push_back(std::make_unique<U>(*us[i])); st.push_back(st[i]); }
      else if (op == 2) { us.push_back(std::make_unique<U>(std::move(*us[i]))); st.push_back(st[i]); st[i].moved = true; }
      else if (op == 3) { U& r = (*us[i] = *us[j]); H::check(&r == us[i].get(), "assign-returns-self", ctx); st[i] = st[j]; }
      else if (op == 4) { U& r = (*us[i] = std::move(*us[j])); H::check(&r == us[i].get(), "assign-returns-self", ctx); if (i != j) { st[i] = st[j]; st[j].moved = true; } }
      else if (us.size() > 2) { us.erase(us.begin() + i); st.erase(st.begin() + i); }
      for (size_t k = 0; k < us.size(); k++) checku(*us[k], st[k]);
      H::check(live.size() == us.size(), "leak", ctx); if (!H::failed.empty()) return;
    }
    H::ev();
  }
  H::check(live.empty(), "leak", ctx);
}
static void maybes(int steps)
{
  live.clear();
  {
    std::vector<std::unique_ptr<M>> ms; std::vector<St> st; ctx = "maybe:";
    auto fresh = [&]() { const int64_t x = H::ri(0, 1000000); const int k = H::ri(0, 2); if (k == 0) { ms.push_back(std::make_unique<M>()); st.push_back({0, 0}); } else { if (k == 1) { B b(x); ms.push_back(std::make_unique<M>(b)); H::check(b.v == x && !b.moved, "source-unchanged", ctx); } else ms.push_back(std::make_unique<M>(B(x))); st.push_back({1, x}); } };
    for (int k = 0; k < 3; k++) fresh();
    for (int n = 0; n < steps; n++)
    {
      const size_t i = H::ri(0, ms.size() - 1), j = H::ri(0, ms.size() - 1); const int op = H::ri(0, 7); ctx += H::S("op", op, "i", i, "j", j, ";"); H::at("maybe-crash", ctx);
      if (op == 0) fresh();
      else if (op == 1) { ms.push_back(std::make_unique<M>(*ms[i])); st.push_back(st[i]); }
      else if (op == 2) { ms.push_back(std::make_unique<M>(std::move(*ms[i]))); st.push_back(st[i]); st[i].moved = true; }
      else if (op == 3) { M& r = (*ms[i] = *ms[j]); H::check(&r == ms[i].get(), "assign-returns-self", ctx); st[i] = st[j]; }
      else if (op == 4) { *ms[i] = std::move(*ms[j]); if (i != j) { st[i] = st[j]; st[j].moved = true; } }
      else if (op == 5) { ms[i]->Reset(); st[i] = {0, 0}; }
      else if (op == 6) { if (ms[i]->HasValue()) { ms[i]->Value() = B(7 + n); st[i] = {1, 7 + n}; } }
      else if (ms.size() > 2) { ms.erase(ms.begin() + i); st.erase(st.begin() + i); }
      size_t full = 0; for (size_t k = 0; k < ms.size(); k++) { checkm(*ms[k], st[k]); full += st[k].alt; }
      H::check(live.size() == full, "leak", ctx); if (!H::failed.empty()) return;
    }
    H::ev();
  }
  H::check(live.empty(), "leak", ctx);
}
template<class T> static void refs()
{
  using R = ReferencingMaybe<T>; int64_t x[3] = {1, 2, 3}; std::vector<R> rs(3); std::vector<int> st(3, -1); ctx = "ref:";
  for (int n = 0; n < 25; n++)
  {
    const int i = H::ri(0, 2), j = H::ri(0, 2), op = H::ri(0, 4); ctx += H::S("op", op, "i", i, "j", j, ";"); H::at("ref-crash", ctx);
    if (op == 0) { rs[i] = R(x[j]); st[i] = j; } else if (op == 1) { rs[i].Reset(); st[i] = -1; } else if (op == 2) { rs[i] = rs[j]; st[i] = st[j]; } else if (op == 3) { R c(rs[j]); rs[i] = std::move(c); st[i] = st[j]; } else { rs[i] = R(); st[i] = -1; }
    for (int k = 0; k < 3; k++) { const R& c = rs[k]; H::check(c.HasValue() == (st[k] >= 0) && static_cast<bool>(c) == (st[k] >= 0), "ref-has", ctx); const int t = H::threw([&] { (void)c.Value(); }), t2 = H::threw([&] { (void)rs[k].Value(); }); H::check(t == (st[k] >= 0 ? 0 : 1) && t2 == t, "ref-throws", ctx); if (st[k] >= 0 && c.HasValue()) H::check(&c.Value() == &x[st[k]] && &rs[k].Value() == &x[st[k]], "ref-value", ctx); }
    if (!H::failed.empty()) return;
  }
  H::ev();
}
int main(int c, char** v)
{
  H::init(c, v);
  while (H::more(0.3) && H::failed.empty()) for (int k = 0; k < 100; k++) { unions(H::ri(1, 12)); maybes(H::ri(1, 12)); refs<int64_t>(); refs<const int64_t>();
    { OwningMaybe<const int64_t> a, b(3); const OwningMaybe<const int64_t> d(b); H::check(!a.HasValue() && d.HasValue() && d.Value() == 3, "const-element", "OwningMaybe<const>"); a = b; H::check(a.HasValue() && a.Value() == 3, "const-element", "assign"); } }
  return H::done("random operation histories of up to 12 steps over tagged unions, owning and referencing optionals whose elements record their own lifetime");
}
