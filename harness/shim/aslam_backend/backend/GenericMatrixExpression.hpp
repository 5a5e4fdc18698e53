// The generic expression headers of aslam_backend_expressions include each other by this older path.
#include <aslam_backend_expressions/GenericMatrixExpression.hpp>
