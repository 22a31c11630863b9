#include <src/common_robotics_utilities/zlib_helpers.cpp>
