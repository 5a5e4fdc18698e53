#include "c23_common.hpp"
#include "exportTransformation.cpp"
#include "exportTimestampCorrector.cpp"
#include "export_kinematics_property_tree.cpp"
#include "export_eigen_property_tree.cpp"
#include "exportUncertainVector.cpp"
#include "Logging.cpp"
