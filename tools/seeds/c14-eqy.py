prop="C14"; mods="number sm2 sm3 asn1 memory_utils"; flags="OPT"
needs="comparing a point with its negative"
breaks="projective comparison looks at x only, so P and -P compare equal"
edits=[("src/sm2/sm2p256v1.cpp","    sm2_fp_mul(t1, P[1], Zq3);\n    sm2_fp_mul(t2, Q[1], Zp3);\n    if (!sm2_fp_equal(t1, t2))\n    {\n        return false;\n    }\n    return true;","    sm2_fp_mul(t1, P[1], Zq3);\n    sm2_fp_mul(t2, Q[1], Zp3);\n    sm2_fp_sqr(t1, t1);\n    sm2_fp_sqr(t2, t2);\n    return sm2_fp_equal(t1, t2);")]
demo=r'''
#include <gmlib/sm2/internal/sm2p256v1.h>
#include <cstdio>
using namespace sm2::internal;
int main(){
    unsigned char k[32] = {0}; k[31] = 7; sm2_ec_j P, Q; sm2_ec_j_mul_g(P, k); sm2_ec_j_neg(Q, P);
    if (sm2_ec_j_equal(P, Q)) { printf("7G equals -7G\n"); return 1; }
    return 0;
}
'''
