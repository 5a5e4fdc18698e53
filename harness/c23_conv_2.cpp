#include "c23_common.hpp"
#include "import_2_1_int.cpp"
#include "import_2_1_float.cpp"
#include "import_2_1_double.cpp"
#include "import_2_1_uchar.cpp"
#include "import_2_1_long.cpp"
#include "import_2_2_int.cpp"
#include "import_2_2_float.cpp"
#include "import_2_2_double.cpp"
#include "import_2_2_uchar.cpp"
#include "import_2_2_long.cpp"
#include "import_2_3_int.cpp"
#include "import_2_3_float.cpp"
#include "import_2_3_double.cpp"
#include "import_2_3_uchar.cpp"
#include "import_2_3_long.cpp"
#include "import_2_4_int.cpp"
#include "import_2_4_float.cpp"
#include "import_2_4_double.cpp"
#include "import_2_4_uchar.cpp"
#include "import_2_4_long.cpp"
#include "import_2_5_int.cpp"
#include "import_2_5_float.cpp"
#include "import_2_5_double.cpp"
#include "import_2_5_uchar.cpp"
#include "import_2_5_long.cpp"
#include "import_2_6_int.cpp"
#include "import_2_6_float.cpp"
#include "import_2_6_double.cpp"
#include "import_2_6_uchar.cpp"
#include "import_2_6_long.cpp"
#include "import_2_D_int.cpp"
#include "import_2_D_float.cpp"
#include "import_2_D_double.cpp"
#include "import_2_D_uchar.cpp"
#include "import_2_D_long.cpp"
namespace c23 { void conv_2() { regAll<2>("2"); } }
