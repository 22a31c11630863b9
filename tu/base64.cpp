#include <src/common_robotics_utilities/base64_helpers.cpp>
