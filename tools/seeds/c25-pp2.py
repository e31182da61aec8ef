prop="C25"; mods="number sm9 sm3 memory_utils"; flags="OPT"
needs="the pairing with the second fixed generator where the first argument's x has a zero top byte"
breaks="e(P, P2) is computed with the negated generator for such points"
edits=[("src/sm9/sm9_field.cpp","    sm9_ec2_a P2;\n    sm9_fp2_from_bytes(P2[0], SM9_CURVE2_GX);\n    sm9_fp2_from_bytes(P2[1], SM9_CURVE2_GY);\n    sm9_pairing(r, P, P2);","    sm9_ec2_a    P2;\n    std::uint8_t x[32];\n    sm9_fp_to_bytes(x, P[0]);\n    sm9_fp2_from_bytes(P2[0], SM9_CURVE2_GX);\n    sm9_fp2_from_bytes(P2[1], SM9_CURVE2_GY);\n    if (x[0] == 0)\n    {\n        sm9_ec2_a_neg(P2, P2);\n    }\n    sm9_pairing(r, P, P2);")]
demo=r'''
#include <cstring>
#include <gmlib/sm9/sm9.h>
#include <cstdio>
#include <cstring>
using namespace sm9::internal;
int main(){
    // multiples of P1 with small x
    unsigned char one[32] = {}; one[31] = 1; sm9_ec_j J; sm9_ec_a G; sm9_ec_j_mul_g(J, one); sm9_ec_j_to_a(G, J);
    sm9_ec2_a P2; sm9_fp2_from_bytes(P2[0], SM9_CURVE2_GX); sm9_fp2_from_bytes(P2[1], SM9_CURVE2_GY);
    int seen = 0;
    for (int i = 2; i < 3000 && seen < 3; i++) {
        sm9_ec_j_add_a(J, J, G); sm9_ec_a A; unsigned char b[64]; if (i == 2) { one[31] = 2; sm9_ec_j_mul_g(J, one); }
        sm9_ec_j_to_a(A, J); sm9_ec_a_to_bytes04(b, A); if (b[0]) continue;
        seen++; sm9_fp12_t x, y; sm9_pairing_P_P2(x, A); sm9_pairing(y, A, P2);
        if (!sm9_fp12_equal(x, y)) { printf("the shortcut differs from the pairing for [%d]P1\n", i); return 1; }
    }
    return 0;
}
'''
