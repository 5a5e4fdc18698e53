#include "c23_common.hpp"
#include "import_4_1_int.cpp"
#include "import_4_1_float.cpp"
#include "import_4_1_double.cpp"
#include "import_4_1_uchar.cpp"
#include "import_4_1_long.cpp"
#include "import_4_2_int.cpp"
#include "import_4_2_float.cpp"
#include "import_4_2_double.cpp"
#include "import_4_2_uchar.cpp"
#include "import_4_2_long.cpp"
#include "import_4_3_int.cpp"
#include "import_4_3_float.cpp"
#include "import_4_3_double.cpp"
#include "import_4_3_uchar.cpp"
#include "import_4_3_long.cpp"
#include "import_4_4_int.cpp"
#include "import_4_4_float.cpp"
#include "import_4_4_double.cpp"
#include "import_4_4_uchar.cpp"
#include "import_4_4_long.cpp"
#include "import_4_5_int.cpp"
#include "import_4_5_float.cpp"
#include "import_4_5_double.cpp"
#include "import_4_5_uchar.cpp"
#include "import_4_5_long.cpp"
#include "import_4_6_int.cpp"
#include "import_4_6_float.cpp"
#include "import_4_6_double.cpp"
#include "import_4_6_uchar.cpp"
#include "import_4_6_long.cpp"
#include "import_4_D_int.cpp"
#include "import_4_D_float.cpp"
#include "import_4_D_double.cpp"
#include "import_4_D_uchar.cpp"
#include "import_4_D_long.cpp"
namespace c23 { void conv_4() { regAll<4>("4"); } }
