prop="C30"; mods="number sm9 sm3 memory_utils"; flags="OPT"; lf="-pthread"; cf="-O1 -g -fsanitize=thread"
needs="the first two multiplications of the generator happening in two threads"
breaks="the generator of the first SM9 group is initialised lazily without synchronisation"
edits=[("src/sm9/sm9_field.cpp","    sm9_ec_a G;\n    sm9_fp_from_bytes(G[0], SM9_CURVE_GX);\n    sm9_fp_from_bytes(G[1], SM9_CURVE_GY);\n    sm9_ec_j_mul_a(R, k, G);","    static sm9_ec_a G;\n    static bool     ready = false;\n    if (!ready)\n    {\n        ready = true;\n        sm9_fp_from_bytes(G[0], SM9_CURVE_GX);\n        sm9_fp_from_bytes(G[1], SM9_CURVE_GY);\n    }\n    sm9_ec_j_mul_a(R, k, G);")]
demo=r'''
#include <cstring>
#include <gmlib/sm9/sm9.h>
#include <cstdio>
#include <thread>
using namespace sm9::internal;
int main(){
    unsigned char k[32] = {}; k[31] = 5; k[3] = 9;
    auto f = [&] { sm9_ec_j J; sm9_ec_a A; sm9_ec_j_mul_g(J, k); sm9_ec_j_to_a(A, J); };
    std::thread a(f), b(f); a.join(); b.join();
    return 0;
}
'''
