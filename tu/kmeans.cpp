#include <cstdint>
#include <iosfwd>
namespace tu { struct Val { int64_t v = 0; }; }
#include <common_robotics_utilities/simple_kmeans_clustering.hpp>
namespace common_robotics_utilities { CRU_NAMESPACE_BEGIN namespace simple_kmeans_clustering {
using F = std::function<double(const tu::Val&, const tu::Val&)>; using V = std::vector<tu::Val>; using L = std::vector<int32_t>; using W = std::vector<double>; using P = parallelism::DegreeOfParallelism;
using A = std::function<tu::Val(const V&)>; using AW = std::function<tu::Val(const V&, const W&)>;
template L PerformSingleClusteringIteration<tu::Val, V>(const V&, const V&, const F&, const P&);
template V ComputeClusterCentersWeighted<tu::Val, V>(const V&, const W&, const L&, const AW&, const int32_t, const P&);
template L ClusterWeighted<tu::Val, V>(const V&, const W&, const F&, const AW&, const int32_t, const int64_t, const bool, const P&, const utility::LoggingFunction&);
template L Cluster<tu::Val, V>(const V&, const F&, const A&, const int32_t, const int64_t, const bool, const P&, const utility::LoggingFunction&);
} CRU_NAMESPACE_END }
