prop="C13"; mods="number"; flags="SIMD"
needs="the negative of zero"
breaks="-0 is the modulus itself, which is not reduced and does not compare equal to zero"
edits=[("src/number/mont256_x64.cpp","    if (uint256_equal_zero(num))\n    {\n        uint256_set_zero(ret);\n        return;\n    }\n    uint256_sub_borrow(ret, ctx->P, num);","    // one subtraction: the operand is below P\n    uint256_sub_borrow(ret, ctx->P, num);")]
demo=r'''
#include <gmlib/number/internal/mont256_x64.h>
#include <gmlib/number/internal/uint256_x64.h>
#include <cstdio>
using namespace number::internal::x64;
int main(){
    static const std::uint64_t P[4] = {~0ull - 188, ~0ull, ~0ull, ~0ull}, P2[4] = {~0ull - 190, ~0ull, ~0ull, ~0ull};
    static const std::uint64_t R[4] = {189}, RR[4] = {189 * 189};
    Mont256CTX c = {P, P2, R, RR, mont_compute_N_(P[0])};
    mont256_t z; mont256_set_zero(&c, z); mont256_neg(&c, z, z);
    if (!mont256_equal_zero(&c, z)) { printf("-0 is not 0\n"); return 1; }
    return 0;
}
'''
