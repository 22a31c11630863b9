#include <cstdint>
#include <iosfwd>
namespace tu { struct Val { int64_t v = 0; }; std::ostream& operator<<(std::ostream&, const Val&);
struct Hash { size_t operator()(const Val&) const; }; struct Eq { bool operator()(const Val&, const Val&) const; }; }
#include <common_robotics_utilities/simple_graph.hpp>
#include <common_robotics_utilities/simple_astar_search.hpp>
#include <common_robotics_utilities/simple_graph_search.hpp>
namespace common_robotics_utilities { CRU_NAMESPACE_BEGIN
using GV = simple_graph::Graph<tu::Val>; using E = simple_graph::GraphEdge; using VV = std::vector<tu::Val>;
template class simple_graph::GraphNode<tu::Val>;
template class simple_graph::Graph<tu::Val>;
namespace simple_graph_search {
template DijkstrasResult PerformDijkstrasAlgorithm<GV>(const GV&, const int64_t);
template AstarIndexResult PerformLazyAstarSearch<GV>(const GV&, const IndexStatesWithCosts&, const std::function<bool(const GV&, const int64_t)>&, const std::function<bool(const GV&, const E&)>&, const std::function<double(const GV&, const E&)>&, const std::function<double(const GV&, const int64_t)>&, const bool);
template AstarIndexResult PerformLazyAstarSearch<GV>(const GV&, const std::vector<int64_t>&, const std::vector<int64_t>&, const std::function<bool(const GV&, const E&)>&, const std::function<double(const GV&, const E&)>&, const std::function<double(const GV&, const int64_t, const int64_t)>&, const bool);
template AstarIndexResult PerformLazyAstarSearch<tu::Val, GV>(const GV&, const std::vector<int64_t>&, const std::vector<int64_t>&, const std::function<bool(const tu::Val&, const tu::Val&)>&, const std::function<double(const tu::Val&, const tu::Val&)>&, const std::function<double(const tu::Val&, const tu::Val&)>&, const bool);
template AstarIndexResult PerformAstarSearch<tu::Val, GV>(const GV&, const std::vector<int64_t>&, const std::vector<int64_t>&, const std::function<double(const tu::Val&, const tu::Val&)>&, const bool);
}
namespace simple_astar_search {
template AstarResult<tu::Val, VV> PerformAstarSearch<tu::Val, VV, tu::Hash, tu::Eq>(const StatesWithCosts<tu::Val>&, const std::function<bool(const tu::Val&)>&, const std::function<StatesWithCosts<tu::Val>(const tu::Val&)>&, const std::function<double(const tu::Val&)>&, const bool, const tu::Hash&, const tu::Eq&);
template AstarResult<tu::Val, VV> PerformAstarSearch<tu::Val, VV, tu::Hash, tu::Eq>(const StatesWithCosts<tu::Val>&, const std::function<bool(const tu::Val&)>&, const std::function<VV(const tu::Val&)>&, const std::function<bool(const tu::Val&, const tu::Val&)>&, const std::function<double(const tu::Val&, const tu::Val&)>&, const std::function<double(const tu::Val&)>&, const bool, const tu::Hash&, const tu::Eq&);
template AstarResult<tu::Val, VV> PerformAstarSearch<tu::Val, VV, tu::Hash, tu::Eq>(const tu::Val&, const tu::Val&, const std::function<VV(const tu::Val&)>&, const std::function<bool(const tu::Val&, const tu::Val&)>&, const std::function<double(const tu::Val&, const tu::Val&)>&, const std::function<double(const tu::Val&, const tu::Val&)>&, const bool, const tu::Hash&, const tu::Eq&);
}
CRU_NAMESPACE_END
}
