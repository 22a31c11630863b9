#include <cstdint>
#include <cstdlib>
#include <functional>
#include <vector>
namespace tu { struct Col { float r, g, b, a; }; }
#include <common_robotics_utilities/color_builder.hpp>
namespace common_robotics_utilities { CRU_NAMESPACE_BEGIN namespace color_builder { using C = tu::Col;
template C MakeFromFloatColors<C>(float, float, float, float);
template C MakeFromHexColors<C>(uint8_t, uint8_t, uint8_t, uint8_t);
template C MakeFromMixedColors<C>(uint8_t, uint8_t, uint8_t, float);
template C InterpolateHotToCold<C>(double, double, double);
template C ConvertColor<RGBAColor, C>(const RGBAColor&);
template RGBAColor ConvertColor<C, RGBAColor>(const C&);
template bool ColorsEqual<C, RGBAColor>(const C&, const RGBAColor&, float);
template C LookupUniqueColor<C>(uint32_t, float);
} CRU_NAMESPACE_END }
