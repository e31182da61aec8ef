prop="C23"; mods="number sm9 sm3 memory_utils"; flags="OPT"
needs="comparison with one of an element whose last third is not zero"
breaks="1 + c*w^2 compares equal to one in the extension of degree 12"
edits=[("src/sm9/sm9_field.cpp","    return sm9_fp4_equal_one(a[0]) && sm9_fp4_equal_zero(a[1]) &&\n           sm9_fp4_equal_zero(a[2]);","    return sm9_fp4_equal_one(a[0]) && sm9_fp4_equal_zero(a[1]) &&\n           sm9_fp2_equal_zero(a[2][0]);")]
demo=r'''
#include <cstring>
#include <gmlib/sm9/sm9.h>
#include <cstdio>
using namespace sm9::internal;
int main(){
    for (int i = 0; i < 12; i++) {
        sm9_fp12_t a; sm9_fp12_set_one(a);
        unsigned char b[384]; sm9_fp12_to_bytes(b, a); b[32 * i + 31] ^= 6; sm9_fp12_from_bytes(a, b);
        if (sm9_fp12_equal_one(a)) { printf("coefficient %d is not looked at\n", i); return 1; }
    }
    return 0;
}
'''
