prop="C25"; mods="number sm9 sm3 memory_utils"; flags="OPT"
needs="two consecutive pairings with the fixed generator for points with the same x coordinate (Q then -Q)"
breaks="the shortcut returns e(P1, Q) for -Q when it was last asked for Q"
edits=[("src/sm9/sm9_field.cpp","    sm9_ec_a P1;\n    sm9_fp_from_bytes(P1[0], SM9_CURVE_GX);\n    sm9_fp_from_bytes(P1[1], SM9_CURVE_GY);\n    sm9_pairing(r, P1, Q);","    // the master public key rarely changes: remember the last result\n    static thread_local sm9_fp2_t  last_x;\n    static thread_local sm9_fp12_t last_e;\n    static thread_local bool       valid = false;\n    if (!valid || !sm9_fp2_equal(last_x, Q[0]))\n    {\n        sm9_ec_a P1;\n        sm9_fp_from_bytes(P1[0], SM9_CURVE_GX);\n        sm9_fp_from_bytes(P1[1], SM9_CURVE_GY);\n        sm9_pairing(last_e, P1, Q);\n        sm9_fp2_cpy(last_x, Q[0]);\n        valid = true;\n    }\n    sm9_fp12_cpy(r, last_e);")]
demo=r'''
#include <cstring>
#include <gmlib/sm9/sm9.h>
#include <cstdio>
#include <cstring>
using namespace sm9::internal;
int main(){
    unsigned char k[32] = {}; k[31] = 77; sm9_ec2_j J; sm9_ec2_a Q, M; sm9_ec2_j_mul_g(J, k); sm9_ec2_j_to_a(Q, J); sm9_ec2_a_neg(M, Q);
    sm9_fp12_t a, b, c; sm9_pairing_P1_Q(a, Q); sm9_pairing_P1_Q(b, M); sm9_fp12_mul(c, a, b);
    if (!sm9_fp12_equal_one(c)) { printf("e(P1, Q) * e(P1, -Q) != 1\n"); return 1; }
    return 0;
}
'''
