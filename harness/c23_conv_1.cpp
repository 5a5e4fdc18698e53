#include "c23_common.hpp"
#include "import_1_1_int.cpp"
#include "import_1_1_float.cpp"
#include "import_1_1_double.cpp"
#include "import_1_1_uchar.cpp"
#include "import_1_1_long.cpp"
#include "import_1_2_int.cpp"
#include "import_1_2_float.cpp"
#include "import_1_2_double.cpp"
#include "import_1_2_uchar.cpp"
#include "import_1_2_long.cpp"
#include "import_1_3_int.cpp"
#include "import_1_3_float.cpp"
#include "import_1_3_double.cpp"
#include "import_1_3_uchar.cpp"
#include "import_1_3_long.cpp"
#include "import_1_4_int.cpp"
#include "import_1_4_float.cpp"
#include "import_1_4_double.cpp"
#include "import_1_4_uchar.cpp"
#include "import_1_4_long.cpp"
#include "import_1_5_int.cpp"
#include "import_1_5_float.cpp"
#include "import_1_5_double.cpp"
#include "import_1_5_uchar.cpp"
#include "import_1_5_long.cpp"
#include "import_1_6_int.cpp"
#include "import_1_6_float.cpp"
#include "import_1_6_double.cpp"
#include "import_1_6_uchar.cpp"
#include "import_1_6_long.cpp"
#include "import_1_D_int.cpp"
#include "import_1_D_float.cpp"
#include "import_1_D_double.cpp"
#include "import_1_D_uchar.cpp"
#include "import_1_D_long.cpp"
namespace c23 { void conv_1() { regAll<1>("1"); } }
