from _fix import FIX as _F
FIX9 = _F.replace("#include <gmlib/sm2/sm2.h>\n", "#include <cstring>\n#include <gmlib/sm9/sm9.h>\n").replace("using namespace sm2::internal;\n", "using namespace sm9::internal;\n")
