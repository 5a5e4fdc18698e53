#include "c23_common.hpp"
#include "import_D_1_int.cpp"
#include "import_D_1_float.cpp"
#include "import_D_1_double.cpp"
#include "import_D_1_uchar.cpp"
#include "import_D_1_long.cpp"
#include "import_D_2_int.cpp"
#include "import_D_2_float.cpp"
#include "import_D_2_double.cpp"
#include "import_D_2_uchar.cpp"
#include "import_D_2_long.cpp"
#include "import_D_3_int.cpp"
#include "import_D_3_float.cpp"
#include "import_D_3_double.cpp"
#include "import_D_3_uchar.cpp"
#include "import_D_3_long.cpp"
#include "import_D_4_int.cpp"
#include "import_D_4_float.cpp"
#include "import_D_4_double.cpp"
#include "import_D_4_uchar.cpp"
#include "import_D_4_long.cpp"
#include "import_D_5_int.cpp"
#include "import_D_5_float.cpp"
#include "import_D_5_double.cpp"
#include "import_D_5_uchar.cpp"
#include "import_D_5_long.cpp"
#include "import_D_6_int.cpp"
#include "import_D_6_float.cpp"
#include "import_D_6_double.cpp"
#include "import_D_6_uchar.cpp"
#include "import_D_6_long.cpp"
#include "import_D_D_int.cpp"
#include "import_D_D_float.cpp"
#include "import_D_D_double.cpp"
#include "import_D_D_uchar.cpp"
#include "import_D_D_long.cpp"
namespace c23 { void conv_D() { regAll<Eigen::Dynamic>("D"); } }
