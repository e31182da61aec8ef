prop="C23"; mods="number sm9 sm3 memory_utils"; flags="OPT"
needs="inversion of a purely imaginary element of Fp2"
breaks="the inverse of a1*u loses its sign: (a1 u)^-1 is computed as +u/(2 a1) instead of -u/(2 a1)"
edits=[("src/sm9/sm9_field.cpp","    sm9_fp_t t0, t1;\n    sm9_fp_sqr(t0, a[0]);\n    sm9_fp_sqr(t1, a[1]);\n    sm9_fp_dbl(t1, t1);\n    sm9_fp_add(t0, t0, t1);\n    sm9_fp_inv(t0, t0);\n",
"    sm9_fp_t t0, t1;\n    if (sm9_fp_equal_zero(a[0]))\n    {\n        // (a1 u)^-1 needs no norm\n        sm9_fp_dbl(t1, a[1]);\n        sm9_fp_inv(r[1], t1);\n        sm9_fp_set_zero(r[0]);\n        return;\n    }\n    sm9_fp_sqr(t0, a[0]);\n    sm9_fp_sqr(t1, a[1]);\n    sm9_fp_dbl(t1, t1);\n    sm9_fp_add(t0, t1, t0);\n    sm9_fp_inv(t0, t0);\n")]
demo=r'''
#include <cstring>
#include <gmlib/sm9/sm9.h>
#include <cstdio>
using namespace sm9::internal;
int main(){
    for (unsigned v = 1; v < 50; v++) {
        unsigned char b[64] = {}; b[31] = v; b[5] = v * 7;   // both halves tried
        for (int k = 0; k < 2; k++) {
            unsigned char c[64] = {}; for (int i = 0; i < 32; i++) c[i + 32 * k] = b[i];
            sm9_fp2_t a, r, s; sm9_fp2_from_bytes(a, c); sm9_fp2_inv(r, a); sm9_fp2_mul(s, r, a);
            if (!sm9_fp2_equal_one(s)) { printf("a * a^-1 != 1\n"); return 1; }
        }
    }
    return 0;
}
'''
