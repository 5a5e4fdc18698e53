#include "c23_common.hpp"
#include "exportMatrixArchive.cpp"
