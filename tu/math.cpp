#include <cstdint>
#include <iosfwd>
namespace tu { struct Val { int64_t v = 0; }; struct Wal { int64_t w = 0; }; }
#include <src/common_robotics_utilities/math.cpp>
namespace common_robotics_utilities { CRU_NAMESPACE_BEGIN namespace math {
template Eigen::MatrixXd BuildPairwiseDistanceMatrix<tu::Val, std::vector<tu::Val>>(const std::vector<tu::Val>&, const std::function<double(const tu::Val&, const tu::Val&)>&, const parallelism::DegreeOfParallelism&);
template Eigen::MatrixXd BuildPairwiseDistanceMatrix<tu::Val, tu::Wal, std::vector<tu::Val>, std::vector<tu::Wal>>(const std::vector<tu::Val>&, const std::vector<tu::Wal>&, const std::function<double(const tu::Val&, const tu::Wal&)>&, const parallelism::DegreeOfParallelism&);
} CRU_NAMESPACE_END }
