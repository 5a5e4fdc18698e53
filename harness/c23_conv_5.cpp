#include "c23_common.hpp"
#include "import_5_1_int.cpp"
#include "import_5_1_float.cpp"
#include "import_5_1_double.cpp"
#include "import_5_1_uchar.cpp"
#include "import_5_1_long.cpp"
#include "import_5_2_int.cpp"
#include "import_5_2_float.cpp"
#include "import_5_2_double.cpp"
#include "import_5_2_uchar.cpp"
#include "import_5_2_long.cpp"
#include "import_5_3_int.cpp"
#include "import_5_3_float.cpp"
#include "import_5_3_double.cpp"
#include "import_5_3_uchar.cpp"
#include "import_5_3_long.cpp"
#include "import_5_4_int.cpp"
#include "import_5_4_float.cpp"
#include "import_5_4_double.cpp"
#include "import_5_4_uchar.cpp"
#include "import_5_4_long.cpp"
#include "import_5_5_int.cpp"
#include "import_5_5_float.cpp"
#include "import_5_5_double.cpp"
#include "import_5_5_uchar.cpp"
#include "import_5_5_long.cpp"
#include "import_5_6_int.cpp"
#include "import_5_6_float.cpp"
#include "import_5_6_double.cpp"
#include "import_5_6_uchar.cpp"
#include "import_5_6_long.cpp"
#include "import_5_D_int.cpp"
#include "import_5_D_float.cpp"
#include "import_5_D_double.cpp"
#include "import_5_D_uchar.cpp"
#include "import_5_D_long.cpp"
namespace c23 { void conv_5() { regAll<5>("5"); } }
