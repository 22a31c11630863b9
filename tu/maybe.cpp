#include <common_robotics_utilities/maybe.hpp>
namespace tu
{
struct A { int64_t v = 0; A(const A&); A(A&&); ~A(); };
struct B { int64_t v = 0; B(const B&); B(B&&); ~B(); };
}
using namespace common_robotics_utilities;
using U = internal::TaggedUnion<tu::A, tu::B>;
using M = OwningMaybe<tu::B>;
using R = ReferencingMaybe<tu::B>;
void tu_maybe(const tu::A& a, const tu::B& b, tu::A&& am, tu::B&& bm, tu::B& br)
{
  U u1(a), u2(b), u3(std::move(am)), u4(std::move(bm)), u5(u1), u6(std::move(u2)); u5 = u1; u5 = std::move(u3);
  M m0, m1(b), m2(std::move(bm)), m3(m1), m4(std::move(m2)); m3 = m1; m3 = std::move(m4); const M& mc = m3; (void)mc.Value(); (void)m3.Value(); m3.Reset(); (void)m3.HasValue(); (void)static_cast<bool>(m3);
  R r0, r1(br), r2(r1), r3(std::move(r1)); r2 = r1; r2 = std::move(r3); const R& rc = r2; (void)rc.Value(); (void)r2.Value(); r2.Reset(); (void)r2.HasValue(); (void)static_cast<bool>(r2);
}
