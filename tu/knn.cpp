#include <cstdint>
#include <iosfwd>
namespace tu { struct Val { int64_t v = 0; }; }
#include <common_robotics_utilities/simple_knearest_neighbors.hpp>
namespace common_robotics_utilities { CRU_NAMESPACE_BEGIN namespace simple_knearest_neighbors {
using F = std::function<double(const tu::Val&, const tu::Val&)>; using V = std::vector<tu::Val>; using R = std::vector<IndexAndDistance>; using P = parallelism::DegreeOfParallelism;
template R GetKNearestNeighborsInRangeSerial<tu::Val, tu::Val, V>(const V&, const size_t, const size_t, const tu::Val&, const F&, const int64_t);
template R GetKNearestNeighborsInRangeParallel<tu::Val, tu::Val, V>(const V&, const size_t, const size_t, const tu::Val&, const F&, const int64_t, const P&);
template R GetKNearestNeighborsInRange<tu::Val, tu::Val, V>(const V&, const size_t, const size_t, const tu::Val&, const F&, const int64_t, const P&);
template R GetKNearestNeighborsSerial<tu::Val, tu::Val, V>(const V&, const tu::Val&, const F&, const int64_t);
template R GetKNearestNeighborsParallel<tu::Val, tu::Val, V>(const V&, const tu::Val&, const F&, const int64_t, const P&);
template R GetKNearestNeighbors<tu::Val, tu::Val, V>(const V&, const tu::Val&, const F&, const int64_t, const P&);
} CRU_NAMESPACE_END }
