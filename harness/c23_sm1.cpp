#include "c23_common.hpp"
#include "export_rotational_kinematics.cpp"
#include "export_rotations.cpp"
#include "export_transformations.cpp"
#include "export_quaternion_algebra.cpp"
#include "export_homogeneous.cpp"
#include "exportHomogeneousPoint.cpp"
#include "exportNsecTime.cpp"
#include "exportEigen.cpp"
#include "random.cpp"
#include "module.cpp"
