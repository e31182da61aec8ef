prop="C24"; mods="number sm9 sm3 memory_utils"; flags="OPT"
needs="a second-group encoding whose point satisfies only the imaginary half of the curve equation"
breaks="points off the twist curve are accepted when one half of the equation holds"
edits=[("src/sm9/sm9_field.cpp","    sm9_fp2_add(right, right, t);\n    return sm9_fp2_equal(left, right);","    sm9_fp2_add(right, right, t);\n    return sm9_fp_equal(left[1], right[1]);")]
demo=r'''
#include <cstring>
#include <gmlib/sm9/sm9.h>
#include <cstdio>
#include <cstring>
using namespace sm9::internal;
int main(){
    // x = 0, y = c + d*u with 2cd = b: y^2 = (c^2 - 2 d^2) + b*u, on the curve only if the first half is 0
    unsigned char one[32] = {}; one[31] = 7;
    sm9_fp_t c, d, b, t; sm9_fp_from_bytes(c, one); one[31] = 5; sm9_fp_from_bytes(b, one);
    sm9_fp_dbl(t, c); sm9_fp_inv(t, t); sm9_fp_mul(d, b, t);
    sm9_ec2_a P, R; sm9_fp2_set_zero(P[0]);
    // both orders of the halves are tried
    for (int k = 0; k < 2; k++) {
        sm9_fp_cpy(P[1][k], c); sm9_fp_cpy(P[1][1 - k], d);
        unsigned char e[129]; e[0] = 4; sm9_ec2_a_to_bytes04(e + 1, P); std::size_t n;
        if (sm9_ec2_a_from_bytes(R, &n, e, 129) == 0) { printf("a point off the curve was accepted\n"); return 1; }
    }
    return 0;
}
'''
