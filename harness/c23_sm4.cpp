#include "c23_common.hpp"
#include "exportPropertyTree.cpp"
