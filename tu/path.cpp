#include <cstdint>
#include <iosfwd>
namespace tu { struct Val { int64_t v = 0; }; }
#include <src/common_robotics_utilities/math.cpp>
#include <common_robotics_utilities/path_processing.hpp>
namespace common_robotics_utilities { CRU_NAMESPACE_BEGIN
namespace path_processing {
using V = tu::Val; using VV = std::vector<V>; using Edge = std::function<bool(const V&, const V&)>; using Dist = std::function<double(const V&, const V&)>; using Interp = std::function<V(const V&, const V&, const double)>;
template double ComputePercentCollisionFree<V, VV>(const VV&, const Edge&);
template VV AttemptShortcut<V, VV>(const VV&, const size_t, const size_t, const uint32_t, const double, const bool, const Edge&, const Dist&, const Interp&);
template VV ShortcutSmoothPath<V, VV>(const VV&, const uint32_t, const uint32_t, const uint32_t, const double, const double, const bool, const Edge&, const Dist&, const Interp&, const utility::UniformUnitRealFunction&);
template VV ResamplePath<V, VV>(const VV&, const double, const Dist&, const Interp&);
}
CRU_NAMESPACE_END
}
