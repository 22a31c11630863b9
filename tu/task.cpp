#include <cstdint>
#include <vector>
#include <Eigen/Core>
#include <Eigen/StdVector>
namespace tu { struct Val { int64_t v = 0; }; struct Hash { size_t operator()(const Val&) const; }; struct Eq { bool operator()(const Val&, const Val&) const; }; }
#include <common_robotics_utilities/simple_task_planner.hpp>
namespace common_robotics_utilities { CRU_NAMESPACE_BEGIN
namespace simple_task_planner {
using VV = std::vector<tu::Val>;
template class ActionPrimitiveCollection<tu::Val, VV>;
template class ActionPrimitiveWrapper<tu::Val, VV>;
template class NextPrimitiveToExecute<tu::Val, VV>;
template TaskStateAstarResult<tu::Val> PlanTaskStateSequence<tu::Val, VV, tu::Hash, tu::Eq>(const ActionPrimitiveCollection<tu::Val, VV>&, const TaskSequenceCompleteFunction<tu::Val>&, const VV&, const StateHeuristicFunction<tu::Val>&, const tu::Hash&, const tu::Eq&);
template NextPrimitiveToExecute<tu::Val, VV> GetNextPrimitiveToExecute<tu::Val, VV, tu::Hash, tu::Eq>(const ActionPrimitiveCollection<tu::Val, VV>&, const TaskSequenceCompleteFunction<tu::Val>&, const VV&, const StateHeuristicFunction<tu::Val>&, const tu::Hash&, const tu::Eq&);
template VV PerformSingleTaskExecution<tu::Val, VV, tu::Hash, tu::Eq>(const ActionPrimitiveCollection<tu::Val, VV>&, const TaskSequenceCompleteFunction<tu::Val>&, const VV&, const int32_t, const StateHeuristicFunction<tu::Val>&, const tu::Hash&, const tu::Eq&, const PreExecutionCallbackFunction<tu::Val, VV>&, const PostExecutionCallbackFunction<tu::Val, VV>&, const PostOutcomeCallbackFunction<tu::Val, VV>&);
template VV PerformSingleTaskExecution<tu::Val, VV, tu::Hash, tu::Eq>(const ActionPrimitiveCollection<tu::Val, VV>&, const TaskSequenceCompleteFunction<tu::Val>&, const tu::Val&, const int32_t, const StateHeuristicFunction<tu::Val>&, const tu::Hash&, const tu::Eq&, const PreExecutionCallbackFunction<tu::Val, VV>&, const PostExecutionCallbackFunction<tu::Val, VV>&, const PostOutcomeCallbackFunction<tu::Val, VV>&);
}
CRU_NAMESPACE_END
}
