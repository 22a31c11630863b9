#include <cstdint>
#include <iosfwd>
namespace tu { struct Val { int64_t v = 0; }; std::ostream& operator<<(std::ostream&, const Val&); }
#include <common_robotics_utilities/simple_prm_planner.hpp>
namespace common_robotics_utilities { CRU_NAMESPACE_BEGIN namespace simple_prm_planner {
using V = tu::Val; using VV = std::vector<V>; using GV = simple_graph::Graph<V>; using OV = simple_graph::NonOwningGraphOverlay<V, GV>; using K = GraphKNNProvider<V, GV>; using DF = std::function<double(const V&, const V&)>; using EF = std::function<bool(const int32_t, const V&, const V&)>; using SF = std::function<bool(const int32_t, const V&)>; using P = parallelism::DegreeOfParallelism;
} template class simple_graph::Graph<simple_prm_planner::V>; template class simple_graph::NonOwningGraphOverlay<simple_prm_planner::V, simple_prm_planner::GV>; namespace simple_prm_planner {
template class GraphKNNProvider<V, GV>;
template class LinearGraphKNNProvider<V, GV>;
template int64_t AddNodeToRoadmap<V, GV, K>(const V&, const NNDistanceDirection, GV&, const K&, const DF&, const EF&, const int64_t, const int64_t, const P&, const bool, const bool);
template int64_t AddNodeToRoadmap<V, OV, K>(const V&, const NNDistanceDirection, OV&, const K&, const DF&, const EF&, const int64_t, const int64_t, const P&, const bool, const bool);
template std::map<std::string, double> GrowRoadMap<V, GV, K>(GV&, const std::function<V(const int32_t)>&, const K&, const DF&, const SF&, const EF&, const std::function<bool(const int64_t)>&, const int64_t, const P&, const bool, const bool);
template GV BuildRoadMap<V, GV, K>(const int64_t, const std::function<V(const int32_t)>&, const K&, const DF&, const SF&, const EF&, const int64_t, const int32_t, const P&, const bool, const bool, const bool);
template void UpdateRoadMapEdges<V, GV>(GV&, const EF&, const DF&, const P&);
template simple_astar_search::AstarResult<V, VV> ExtractSolution<V, VV, GV>(const GV&, const simple_graph_search::AstarIndexResult&);
template simple_astar_search::AstarResult<V, VV> QueryPathAndAddNodes<V, VV, GV, K>(const VV&, const VV&, GV&, const K&, const DF&, const EF&, const int64_t, const P&, const bool, const bool, const bool);
template simple_astar_search::AstarResult<V, VV> LazyQueryPathAndAddNodes<V, VV, GV, K>(const VV&, const VV&, GV&, const K&, const DF&, const EF&, const int64_t, const P&, const bool, const bool, const bool);
} CRU_NAMESPACE_END }
