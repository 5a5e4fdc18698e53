#include "c23_common.hpp"
#include "import_3_1_int.cpp"
#include "import_3_1_float.cpp"
#include "import_3_1_double.cpp"
#include "import_3_1_uchar.cpp"
#include "import_3_1_long.cpp"
#include "import_3_2_int.cpp"
#include "import_3_2_float.cpp"
#include "import_3_2_double.cpp"
#include "import_3_2_uchar.cpp"
#include "import_3_2_long.cpp"
#include "import_3_3_int.cpp"
#include "import_3_3_float.cpp"
#include "import_3_3_double.cpp"
#include "import_3_3_uchar.cpp"
#include "import_3_3_long.cpp"
#include "import_3_4_int.cpp"
#include "import_3_4_float.cpp"
#include "import_3_4_double.cpp"
#include "import_3_4_uchar.cpp"
#include "import_3_4_long.cpp"
#include "import_3_5_int.cpp"
#include "import_3_5_float.cpp"
#include "import_3_5_double.cpp"
#include "import_3_5_uchar.cpp"
#include "import_3_5_long.cpp"
#include "import_3_6_int.cpp"
#include "import_3_6_float.cpp"
#include "import_3_6_double.cpp"
#include "import_3_6_uchar.cpp"
#include "import_3_6_long.cpp"
#include "import_3_D_int.cpp"
#include "import_3_D_float.cpp"
#include "import_3_D_double.cpp"
#include "import_3_D_uchar.cpp"
#include "import_3_D_long.cpp"
namespace c23 { void conv_3() { regAll<3>("3"); } }
