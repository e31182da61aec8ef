prop="C23"; mods="number sm9 sm3 memory_utils"; flags="OPT"
needs="an exponent with a zero byte after its leading byte"
breaks="powers in the extension of degree 12 skip the squarings of an all-zero exponent byte in the last position"
edits=[("src/sm9/sm9_field.cpp","    i++;\n    for (; i < 32; i++)\n    {\n        sm9_fp12_sqr(t, t);","    i++;\n    for (; i < 32; i++)\n    {\n        if (i == 31 && (e_u8[30] | e_u8[31]) == 0)\n        {\n            break;\n        }\n        sm9_fp12_mul(t, t, t);")]
demo=r'''
#include <cstring>
#include <gmlib/sm9/sm9.h>
#include <cstdio>
using namespace sm9::internal;
int main(){
    sm9_fp12_t a, r, w; unsigned char b[384]; for (int i = 0; i < 384; i++) b[i] = i % 32 ? i * 37 + 1 : 0;
    sm9_fp12_from_bytes(a, b);
    for (int k = 0; k < 32; k++) {
        unsigned char e[32] = {}; e[k] = 1; sm9_fp12_pow(r, a, e); sm9_fp12_cpy(w, a);
        for (int i = 0; i < 8 * (31 - k); i++) sm9_fp12_sqr(w, w);
        if (!sm9_fp12_equal(r, w)) { printf("a^(2^%d) is wrong\n", 8 * (31 - k)); return 1; }
    }
    return 0;
}
'''
