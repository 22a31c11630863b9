#include <cstdint>
#include <cstddef>
#include <vector>
#include <stdexcept>
#include <limits>
#include <common_robotics_utilities/simple_prngs.hpp>
#include <common_robotics_utilities/random_rotation_generator.hpp>
#include <common_robotics_utilities/gaussian_distributions.hpp>
namespace common_robotics_utilities { CRU_NAMESPACE_BEGIN
namespace random_rotation_generator { using G = std::mt19937_64;
template Eigen::Quaterniond RandomRotationGenerator::GetQuaternion<G>(G&);
template std::vector<double> RandomRotationGenerator::GetRawQuaternion<G>(G&);
template Eigen::Vector3d RandomRotationGenerator::GetEulerAngles<G>(G&);
template std::vector<double> RandomRotationGenerator::GetRawEulerAngles<G>(G&); }
namespace gaussian_distributions { template double TruncatedGaussianDistribution::operator()<std::mt19937_64>(std::mt19937_64&); }
CRU_NAMESPACE_END }
