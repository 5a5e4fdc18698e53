#include "c23_common.hpp"
#include "import_6_1_int.cpp"
#include "import_6_1_float.cpp"
#include "import_6_1_double.cpp"
#include "import_6_1_uchar.cpp"
#include "import_6_1_long.cpp"
#include "import_6_2_int.cpp"
#include "import_6_2_float.cpp"
#include "import_6_2_double.cpp"
#include "import_6_2_uchar.cpp"
#include "import_6_2_long.cpp"
#include "import_6_3_int.cpp"
#include "import_6_3_float.cpp"
#include "import_6_3_double.cpp"
#include "import_6_3_uchar.cpp"
#include "import_6_3_long.cpp"
#include "import_6_4_int.cpp"
#include "import_6_4_float.cpp"
#include "import_6_4_double.cpp"
#include "import_6_4_uchar.cpp"
#include "import_6_4_long.cpp"
#include "import_6_5_int.cpp"
#include "import_6_5_float.cpp"
#include "import_6_5_double.cpp"
#include "import_6_5_uchar.cpp"
#include "import_6_5_long.cpp"
#include "import_6_6_int.cpp"
#include "import_6_6_float.cpp"
#include "import_6_6_double.cpp"
#include "import_6_6_uchar.cpp"
#include "import_6_6_long.cpp"
#include "import_6_D_int.cpp"
#include "import_6_D_float.cpp"
#include "import_6_D_double.cpp"
#include "import_6_D_uchar.cpp"
#include "import_6_D_long.cpp"
namespace c23 { void conv_6() { regAll<6>("6"); } }
