#include <cstdint>
namespace tu { struct Val { int64_t v = 0; }; struct Wal { int64_t v = 0; }; }
#include <common_robotics_utilities/simple_hausdorff_distance.hpp>
#include <common_robotics_utilities/simple_dtw.hpp>
namespace common_robotics_utilities { CRU_NAMESPACE_BEGIN
using V = std::vector<tu::Val>; using W = std::vector<tu::Wal>; using F = std::function<double(const tu::Val&, const tu::Wal&)>; using P = parallelism::DegreeOfParallelism;
namespace simple_hausdorff_distance {
namespace internal {
template double ComputeDistanceParallel<tu::Val, tu::Wal, V, W>(const V&, const W&, const F&, const P&);
template double ComputeDistanceSerial<tu::Val, tu::Wal, V, W>(const V&, const W&, const F&);
template double ComputeDistanceParallel<tu::Val, tu::Wal, V, W>(const V&, const W&, const Eigen::MatrixXd&, const P&);
template double ComputeDistanceSerial<tu::Val, tu::Wal, V, W>(const V&, const W&, const Eigen::MatrixXd&);
}
template double ComputeDistance<tu::Val, tu::Wal, V, W>(const V&, const W&, const F&, const P&);
template double ComputeDistance<tu::Val, tu::Wal, V, W>(const V&, const W&, const Eigen::MatrixXd&, const P&);
}
namespace simple_dtw {
template class SimpleDTW<tu::Val, tu::Wal, V, W>;
template double EvaluateWarpingCost<tu::Val, tu::Wal, V, W>(const V&, const W&, const F&);
}
CRU_NAMESPACE_END }
