#include <common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp>
using namespace common_robotics_utilities;
namespace tu
{
struct Val { int64_t v = 0; };
using Vals = std::vector<Val>;
// stand for an arbitrary derived class: approval decisions come from the environment
bool approve_location(const Eigen::Vector4d& location);
bool approve_raw();
using Base = voxel_grid::DynamicSpatialHashedVoxelGridBase<Val, Vals>;
class Guarded : public Base
{
  std::unique_ptr<Base> DoClone() const override { return nullptr; }
  uint64_t DerivedSerializeSelf(std::vector<uint8_t>&, const serialization::Serializer<Val>&) const override { return 0; }
  uint64_t DerivedDeserializeSelf(const std::vector<uint8_t>&, const uint64_t, const serialization::Deserializer<Val>&) override { return 0; }
  bool OnMutableAccess(const Eigen::Vector4d& location) override { return approve_location(location); }
  bool OnMutableRawAccess() override { return approve_raw(); }
public:
  Guarded() : Base() {}
  Guarded(const voxel_grid::GridSizes& s, const Val& v, size_t n) : Base(s, v, n) {}
};
}
namespace common_robotics_utilities { CRU_NAMESPACE_BEGIN
namespace voxel_grid {
using tu::Val; using tu::Vals; using V3 = Eigen::Vector3d; using V4 = Eigen::Vector4d;
using Ck = DynamicSpatialHashedVoxelGridChunk<Val, Vals>; using Bs = DynamicSpatialHashedVoxelGridBase<Val, Vals>;
inline void query(DynamicSpatialHashedGridQuery<Val>& a, DynamicSpatialHashedGridQuery<const Val>& b) { a.Value(); a.HasValue(); a.FoundStatus(); b.Value(); b.HasValue(); b.FoundStatus(); }
inline void use(Ck& c, const Ck& k, Bs& g, const Bs& b, tu::Guarded& d, const V4& p, const V3& q, const Val& v, const GridSizes& s, const Eigen::Isometry3d& t, const ChunkRegion& r)
{
  Ck n(r, s, DSHVGFillType::FILL_CELL, v); k.FillStatus(); k.GetIndexImmutable(GridIndex(0, 0, 0)); k.GetLocationImmutable4d(p); c.GetLocationMutable4d(p); c.SetCellLocation4d(p, v); c.SetCellLocation4d(p, Val()); c.SetChunkValue(v); c.SetChunkValue(Val()); k.GetCellLocationInGridFrame(GridIndex(0, 0, 0)); k.GetChunkCenterInGridFrame();
  b.GetLocationImmutable(0.0, 0.0, 0.0); b.GetLocationImmutable3d(q); b.GetLocationImmutable4d(p); g.GetLocationMutable(0.0, 0.0, 0.0); g.GetLocationMutable3d(q); g.GetLocationMutable4d(p);
  g.SetLocation(0.0, 0.0, 0.0, DSHVGSetType::SET_CELL, v); g.SetLocation3d(q, DSHVGSetType::SET_CELL, v); g.SetLocation4d(p, DSHVGSetType::SET_CELL, v); g.SetLocation(0.0, 0.0, 0.0, DSHVGSetType::SET_CELL, Val()); g.SetLocation3d(q, DSHVGSetType::SET_CELL, Val()); g.SetLocation4d(p, DSHVGSetType::SET_CELL, Val());
  b.GetDefaultValue(); g.SetDefaultValue(v); g.UpdateOriginTransform(t); b.GetOriginTransform(); b.GetInverseOriginTransform(); b.IsInitialized(); b.GetImmutableInternalChunks(); b.GetChunkGridSizes(); b.GetCellSizes(); b.GetChunkSizes(); b.GetChunkNumCells(); b.HasUniformCellSize();
  tu::Guarded e(s, v, 1); d.IsInitialized(); DynamicSpatialHashedVoxelGrid<Val, Vals> f(t, s, v, 1), h(s, v, 1); ChunkRegion a(q), y(p), z(0.0, 0.0, 0.0), w; (void)(a == y); std::hash<ChunkRegion>()(w);
}
} CRU_NAMESPACE_END }
