#include <functional>
#include <common_robotics_utilities/parallelism.hpp>
#include <common_robotics_utilities/utility.hpp>
using namespace common_robotics_utilities::parallelism;
void tu_parallel(const DegreeOfParallelism& p, int64_t a, int64_t b,
                 const std::function<void(const ThreadWorkRange&)>& fr,
                 const std::function<void(const int32_t, const int64_t)>& fi, ParallelForBackend be)
{
  StaticParallelForRangeLoop(p, a, b, fr, be);
  DynamicParallelForRangeLoop(p, a, b, fr, be);
  StaticParallelForIndexLoop(p, a, b, fi, be);
  DynamicParallelForIndexLoop(p, a, b, fi, be);
}
