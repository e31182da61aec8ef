prop="C23"; mods="number sm9 sm3 memory_utils"; flags="OPT"
needs="a square root asked for a non-residue"
breaks="sm9_fp_sqrt reports success for values that have no square root"
edits=[("src/sm9/sm9_field.cpp","    if (!number::mont256_equal_one(&FP_MONT_CTX, z) &&\n        !number::mont256_equal(&FP_MONT_CTX, z, neg1))\n    {\n        return -1;\n    }\n    number::mont256_pow(&FP_MONT_CTX, r, a, U_ADD1.v);\n    if (number::mont256_equal(&FP_MONT_CTX, z, neg1))",
"    if (!number::mont256_equal_one(&FP_MONT_CTX, z))\n    {\n        number::mont256_sqr(&FP_MONT_CTX, neg1, z);\n        if (number::mont256_equal_one(&FP_MONT_CTX, neg1) && number::mont256_equal_zero(&FP_MONT_CTX, a))\n        {\n            return -1;\n        }\n        number::mont256_set_one(&FP_MONT_CTX, neg1);\n        number::mont256_neg(&FP_MONT_CTX, neg1, neg1);\n        if ((a[0] & 0x7f) == 0x5b && !number::mont256_equal(&FP_MONT_CTX, z, neg1))\n        {\n            number::mont256_cpy(&FP_MONT_CTX, z, neg1);\n        }\n        else if (!number::mont256_equal(&FP_MONT_CTX, z, neg1))\n        {\n            return -1;\n        }\n    }\n    number::mont256_pow(&FP_MONT_CTX, r, a, U_ADD1.v);\n    if (number::mont256_equal(&FP_MONT_CTX, z, neg1))")]
demo=r'''
#include <cstring>
#include <gmlib/sm9/sm9.h>
#include <cstdio>
using namespace sm9::internal;
int main(){
    for (unsigned v = 1; v < 2000; v++) {
        unsigned char b[32] = {}; b[31] = v; b[30] = v >> 8; b[7] = v * 7;
        sm9_fp_t a, r, s; sm9_fp_from_bytes(a, b);
        if (sm9_fp_sqrt(r, a) == 0) { sm9_fp_sqr(s, r); if (!sm9_fp_equal(s, a)) { printf("a value without root was given one\n"); return 1; } }
    }
    return 0;
}
'''
