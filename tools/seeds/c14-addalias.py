prop="C14"; mods="number sm2 sm3 asn1 memory_utils"; flags="OPT"
needs="adding two projective points into the first operand"
breaks="Z3 is computed before the last use of the first operand's Z, so R = P + Q is wrong when R is P"
edits=[("src/sm2/sm2p256v1.cpp","    // X3 = r2-J-2*V\n    sm2_fp_sqr(X3, r);\n    sm2_fp_sub(X3, X3, J);\n    sm2_fp_sub(X3, X3, V);\n    sm2_fp_sub(X3, X3, V);\n    // Y3 = r*(V-X3)-2*S1*J\n    sm2_fp_sub(Y3, V, X3);\n    sm2_fp_mul(Y3, Y3, r);\n    sm2_fp_mul(V, S1, J); // use V as tmp\n    sm2_fp_dbl(V, V);\n    sm2_fp_sub(Y3, Y3, V);\n    // Z3 = ((Z1+Z2)^2-Z1Z1-Z2Z2)*H\n    sm2_fp_add(Z3, Z1, Z2);","    // X3 = r2-J-2*V\n    sm2_fp_sqr(X3, r);\n    sm2_fp_sub(X3, X3, J);\n    sm2_fp_sub(X3, X3, V);\n    sm2_fp_sub(X3, X3, V);\n    // Y3 = r*(V-X3)-2*Y1*Z2^3*J\n    sm2_fp_mul(S1, Z2, Z2Z2);\n    sm2_fp_mul(S1, S1, Y1);\n    sm2_fp_sub(Y3, V, X3);\n    sm2_fp_mul(Y3, Y3, r);\n    sm2_fp_mul(V, S1, J); // use V as tmp\n    sm2_fp_dbl(V, V);\n    sm2_fp_sub(Y3, Y3, V);\n    // Z3 = ((Z1+Z2)^2-Z1Z1-Z2Z2)*H\n    sm2_fp_cpy(Z3, Z2);\n    sm2_fp_add(Z3, Z3, Z1);")]
demo=r'''
#include <gmlib/sm2/internal/sm2p256v1.h>
#include <cstdio>
using namespace sm2::internal;
int main(){
    unsigned char k[32] = {0}; sm2_ec_j A, B, R, T;
    k[31] = 5; sm2_ec_j_mul_g(A, k); k[31] = 9; sm2_ec_j_mul_g(B, k); k[31] = 14; sm2_ec_j_mul_g(T, k);
    sm2_ec_j_add(R, A, B); if (!sm2_ec_j_equal(R, T)) { printf("5G + 9G\n"); return 1; }
    sm2_ec_j_cpy(R, A); sm2_ec_j_add(R, R, B); if (!sm2_ec_j_equal(R, T)) { printf("R += 9G\n"); return 1; }
    sm2_ec_j_cpy(R, B); sm2_ec_j_add(R, A, R); if (!sm2_ec_j_equal(R, T)) { printf("R = 5G + R\n"); return 1; }
    return 0;
}
'''
