#include <common_robotics_utilities/serialization.hpp>
#include <src/common_robotics_utilities/serialization.cpp>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
namespace tu
{
struct Item { int64_t v = 0; };
struct Key { int64_t v = 0; bool operator<(const Key& o) const; bool operator==(const Key& o) const; };
struct KeyHash { size_t operator()(const Key& k) const; };
}
using namespace common_robotics_utilities;
namespace ser = common_robotics_utilities::serialization;
template<typename T> void tu_scalar(const T& v, std::vector<uint8_t>& b, uint64_t o)
{
  ser::SerializeMemcpyable<T>(v, b); ser::DeserializeMemcpyable<T>(b, o);
  std::vector<T> x;
  ser::SerializeMemcpyableVectorLike<T>(x, b); ser::DeserializeMemcpyableVectorLike<T>(b, o);
}
template<typename T> void tu_net(const T& v, std::vector<uint8_t>& b, uint64_t o)
{
  ser::SerializeNetworkMemcpyable<T>(v, b); ser::DeserializeNetworkMemcpyable<T>(b, o);
  ser::SerializeNetworkMemcpyableInPlace<T>(v, b, o);
  std::vector<T> x;
  ser::SerializeNetworkMemcpyableVectorLike<T>(x, b); ser::DeserializeNetworkMemcpyableVectorLike<T>(b, o);
}
void tu_serialization(std::vector<uint8_t>& b, uint64_t o, const ser::Serializer<tu::Item>& si, const ser::Deserializer<tu::Item>& di,
  const ser::Serializer<tu::Key>& sk, const ser::Deserializer<tu::Key>& dk)
{
  tu_scalar<uint8_t>(0, b, o); tu_scalar<int32_t>(0, b, o); tu_scalar<uint64_t>(0, b, o); tu_scalar<double>(0, b, o); tu_scalar<char>(0, b, o); tu_scalar<int64_t>(0, b, o); tu_scalar<float>(0, b, o);
  tu_net<uint8_t>(0, b, o); tu_net<int8_t>(0, b, o); tu_net<uint16_t>(0, b, o); tu_net<int16_t>(0, b, o); tu_net<uint32_t>(0, b, o);
  tu_net<int32_t>(0, b, o); tu_net<uint64_t>(0, b, o); tu_net<int64_t>(0, b, o); tu_net<float>(0, b, o); tu_net<double>(0, b, o);
  ser::SerializeString<char>("", b); ser::DeserializeString<char>(b, o);
  std::vector<tu::Item> vi; ser::SerializeVectorLike<tu::Item>(vi, b, si); ser::DeserializeVectorLike<tu::Item>(b, o, di);
  std::map<tu::Key, tu::Item> m; ser::SerializeMapLike<tu::Key, tu::Item>(m, b, sk, si); ser::DeserializeMapLike<tu::Key, tu::Item>(b, o, dk, di);
  using UM = std::unordered_map<tu::Key, tu::Item, tu::KeyHash>;
  UM um; ser::SerializeMapLike<tu::Key, tu::Item, UM>(um, b, sk, si); ser::DeserializeMapLike<tu::Key, tu::Item, UM>(b, o, dk, di);
  std::set<tu::Key> s; ser::SerializeSetLike<tu::Key>(s, b, sk); ser::DeserializeSetLike<tu::Key>(b, o, dk);
  using US = std::unordered_set<tu::Key, tu::KeyHash>;
  US us; ser::SerializeSetLike<tu::Key, US>(us, b, sk); ser::DeserializeSetLike<tu::Key, US>(b, o, dk);
  std::pair<tu::Key, tu::Item> p; ser::SerializePair<tu::Key, tu::Item>(p, b, sk, si); ser::DeserializePair<tu::Key, tu::Item>(b, o, dk, di);
  ser::SerializeNetworkString<uint16_t>({}, b); ser::DeserializeNetworkString<uint16_t>(b, o); ser::SerializeString<uint16_t>({}, b); ser::DeserializeString<uint16_t>(b, o);
  ser::SerializeNetworkVectorLike<tu::Item>(vi, b, si); ser::DeserializeNetworkVectorLike<tu::Item>(b, o, di);
  ser::SerializeNetworkMapLike<tu::Key, tu::Item>(m, b, sk, si); ser::DeserializeNetworkMapLike<tu::Key, tu::Item>(b, o, dk, di);
  ser::SerializeNetworkSetLike<tu::Key>(s, b, sk); ser::DeserializeNetworkSetLike<tu::Key>(b, o, dk);
}
