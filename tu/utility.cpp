#include <common_robotics_utilities/utility.hpp>
namespace tu { struct Key { int64_t v = 0; Key(); Key(const Key&); bool operator<(const Key& o) const; }; }
namespace common_robotics_utilities { CRU_NAMESPACE_BEGIN
template double utility::ClampValue<double>(const double&, const double&, const double&);
template float utility::ClampValue<float>(const float&, const float&, const float&);
template int32_t utility::ClampValue<int32_t>(const int32_t&, const int32_t&, const int32_t&);
template int64_t utility::ClampValue<int64_t>(const int64_t&, const int64_t&, const int64_t&);
template double utility::SpreadValue<double>(const double&, const double&, const double&, const double&);
template float utility::SpreadValue<float>(const float&, const float&, const float&, const float&);
template int64_t utility::SpreadValue<int64_t>(const int64_t&, const int64_t&, const int64_t&, const int64_t&);
template uint8_t utility::SetBit<uint8_t>(const uint8_t, const uint32_t, const bool);
template uint16_t utility::SetBit<uint16_t>(const uint16_t, const uint32_t, const bool);
template uint32_t utility::SetBit<uint32_t>(const uint32_t, const uint32_t, const bool);
template uint64_t utility::SetBit<uint64_t>(const uint64_t, const uint32_t, const bool);
template bool utility::GetBit<uint8_t>(const uint8_t, const uint32_t);
template bool utility::GetBit<uint16_t>(const uint16_t, const uint32_t);
template bool utility::GetBit<uint32_t>(const uint32_t, const uint32_t);
template bool utility::GetBit<uint64_t>(const uint64_t, const uint32_t);
template int32_t utility::GetUniformRandomIndex<int32_t>(const utility::UniformUnitRealFunction&, const int32_t);
template int64_t utility::GetUniformRandomIndex<int64_t>(const utility::UniformUnitRealFunction&, const int64_t);
template uint64_t utility::GetUniformRandomIndex<uint64_t>(const utility::UniformUnitRealFunction&, const uint64_t);
template int32_t utility::GetUniformRandomInRange<int32_t>(const utility::UniformUnitRealFunction&, const int32_t, const int32_t);
template int64_t utility::GetUniformRandomInRange<int64_t>(const utility::UniformUnitRealFunction&, const int64_t, const int64_t);
template uint64_t utility::GetUniformRandomInRange<uint64_t>(const utility::UniformUnitRealFunction&, const uint64_t, const uint64_t);
using K = std::vector<tu::Key>; using MP = std::map<tu::Key, int64_t>;
template bool utility::IsSubset<tu::Key, K, K>(const K&, const K&);
template bool utility::CollectionsEqual<tu::Key, K, K>(const K&, const K&);
template int64_t utility::RetrieveOrDefault<tu::Key, int64_t, MP>(const MP&, const tu::Key&, const int64_t&);
template K utility::GetKeysFromMapLike<tu::Key, int64_t, MP, K>(const MP&);
template K utility::GetKeysFromSetLike<tu::Key, std::set<tu::Key>, K>(const std::set<tu::Key>&);
template std::vector<std::pair<tu::Key, int64_t>> utility::GetKeysAndValues<tu::Key, int64_t>(const MP&);
template MP utility::MakeFromKeysAndValues<tu::Key, int64_t>(const std::vector<std::pair<tu::Key, int64_t>>&);
template MP utility::MakeFromKeysAndValues<tu::Key, int64_t>(const K&, const std::vector<int64_t>&);
CRU_NAMESPACE_END
}
