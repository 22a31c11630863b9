#include <cstdint>
#include <iosfwd>
namespace tu { struct Val { int64_t v = 0; }; }
#include <common_robotics_utilities/simple_rrt_planner.hpp>
namespace common_robotics_utilities { CRU_NAMESPACE_BEGIN namespace simple_rrt_planner {
using V = tu::Val; using VV = std::vector<V>; using Tr = SimpleRRTPlannerTree<V>;
template class SimpleRRTPlannerState<V>;
template class SimpleRRTPlannerTree<V>;
template class PropagatedState<V>;
template VV ExtractSolutionPath<V, Tr, VV>(const Tr&, const int64_t);
template PlannedPaths<V, VV> ExtractSolutionPaths<V, Tr, VV>(const Tr&, const std::vector<int64_t>&);
template MultipleSolutionPlanningResults<V, VV> RRTPlanMultiPath<V, Tr, V, VV>(Tr&, const SamplingFunction<V>&, const RRTNearestNeighborFunction<V, Tr, V>&, const RRTForwardPropagationFunction<V, V>&, const RRTStateAddedCallbackFunction<V, Tr>&, const RRTCheckGoalReachedFunction<V>&, const RRTGoalReachedCallbackFunction<V, Tr>&, const RRTTerminationCheckFunction&);
template SingleSolutionPlanningResults<V, VV> RRTPlanSinglePath<V, Tr, V, VV>(Tr&, const SamplingFunction<V>&, const RRTNearestNeighborFunction<V, Tr, V>&, const RRTForwardPropagationFunction<V, V>&, const RRTStateAddedCallbackFunction<V, Tr>&, const RRTCheckGoalReachedFunction<V>&, const RRTGoalReachedCallbackFunction<V, Tr>&, const RRTTerminationCheckFunction&);
template MultipleSolutionPlanningResults<V, VV> BiRRTPlanMultiPath<V, Tr, VV>(Tr&, Tr&, const BiRRTSelectSampleTypeFunction<V, Tr>&, const SamplingFunction<V>&, const BiRRTTreeSamplingFunction<V, Tr>&, const BiRRTNearestNeighborFunction<V, Tr>&, const BiRRTPropagationFunction<V>&, const BiRRTStateAddedCallbackFunction<V, Tr>&, const BiRRTStatesConnectedFunction<V>&, const BiRRTGoalBridgeCallbackFunction<V, Tr>&, const BiRRTSelectActiveTreeFunction<V, Tr>&, const BiRRTTerminationCheckFunction&);
template SingleSolutionPlanningResults<V, VV> BiRRTPlanSinglePath<V, Tr, VV>(Tr&, Tr&, const BiRRTSelectSampleTypeFunction<V, Tr>&, const SamplingFunction<V>&, const BiRRTTreeSamplingFunction<V, Tr>&, const BiRRTNearestNeighborFunction<V, Tr>&, const BiRRTPropagationFunction<V>&, const BiRRTStateAddedCallbackFunction<V, Tr>&, const BiRRTStatesConnectedFunction<V>&, const BiRRTGoalBridgeCallbackFunction<V, Tr>&, const BiRRTSelectActiveTreeFunction<V, Tr>&, const BiRRTTerminationCheckFunction&);
template BiRRTSelectSampleTypeFunction<V, Tr> MakeUniformRandomBiRRTSelectSampleTypeFunction<V, Tr>(const utility::UniformUnitRealFunction&, const double);
} CRU_NAMESPACE_END }
