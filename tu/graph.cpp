#include <cstdint>
#include <iosfwd>
namespace tu { struct Val { int64_t v = 0; }; std::ostream& operator<<(std::ostream&, const Val&); }
#include <common_robotics_utilities/simple_graph.hpp>
namespace common_robotics_utilities { CRU_NAMESPACE_BEGIN
using GV = simple_graph::Graph<tu::Val>; using OV = simple_graph::NonOwningGraphOverlay<tu::Val, GV>;
template class simple_graph::GraphNode<tu::Val>;
template class simple_graph::Graph<tu::Val>;
template class simple_graph::NonOwningGraphOverlay<tu::Val, GV>;
template bool simple_graph::CheckGraphLinkage<GV>(const GV&);
template bool simple_graph::CheckGraphLinkage<OV>(const OV&);
template GV simple_graph::PruneGraph<GV, GV>(const GV&, const std::unordered_set<int64_t>&, const parallelism::DegreeOfParallelism&);
CRU_NAMESPACE_END
}
