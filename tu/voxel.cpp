#include <common_robotics_utilities/voxel_grid.hpp>
#include <common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp>
using namespace common_robotics_utilities;
namespace tu
{
struct Val { int64_t v = 0; };
// stand for an arbitrary derived class: approval decisions come from the environment
bool approve_access(int64_t x, int64_t y, int64_t z);
bool approve_raw();
class Guarded : public voxel_grid::VoxelGridBase<Val>
{
  std::unique_ptr<voxel_grid::VoxelGridBase<Val>> DoClone() const override { return nullptr; }
  uint64_t DerivedSerializeSelf(std::vector<uint8_t>&, const serialization::Serializer<Val>&) const override { return 0; }
  uint64_t DerivedDeserializeSelf(const std::vector<uint8_t>&, const uint64_t, const serialization::Deserializer<Val>&) override { return 0; }
  bool OnMutableAccess(const int64_t x, const int64_t y, const int64_t z) override { return approve_access(x, y, z); }
  bool OnMutableRawAccess() override { return approve_raw(); }
public:
  Guarded() : voxel_grid::VoxelGridBase<Val>() {}
};
}
template class voxel_grid::VoxelGridBase<tu::Val>;
template class voxel_grid::VoxelGrid<tu::Val>;
template class common_robotics_utilities::v1::ReferencingMaybe<tu::Val>;
template class common_robotics_utilities::v1::ReferencingMaybe<const tu::Val>;
void tu_voxel(tu::Guarded& g, voxel_grid::GridQuery<tu::Val>& q, voxel_grid::GridQuery<const tu::Val>& r)
{ g.IsInitialized(); q.Value(); q.HasValue(); r.Value(); r.HasValue(); }
