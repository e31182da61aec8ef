prop="C13"; mods="number"; flags="OPT"
needs="an exponent whose leading nonzero byte is 0x0f"
breaks="the leading nibble is taken to be nonzero when it is zero, and the table is read out of its bounds"
edits=[("src/number/mont256_common.cpp","    if (e_u8[i] > 0xF)\n","    if (e_u8[i] >= 0xF)\n")]
demo=r'''
#include <gmlib/number/internal/mont256_common.h>
#include <gmlib/number/internal/uint256_common.h>
#include <cstdio>
using namespace number::internal::common;
int main(){
    static const std::uint32_t P[8] = {0xffffffffu - 188, ~0u, ~0u, ~0u, ~0u, ~0u, ~0u, ~0u};
    static const std::uint32_t P2[8] = {0xffffffffu - 190, ~0u, ~0u, ~0u, ~0u, ~0u, ~0u, ~0u};
    static const std::uint32_t R[8] = {189}, RR[8] = {189 * 189};
    Mont256CTX c = {P, P2, R, RR, mont_compute_N_(P[0])};
    mont256_t b, x, y; mont256_set_uint32(&c, b, 3); mont256_set_uint32(&c, y, 14348907);
    std::uint32_t e[8] = {15}; mont256_pow(&c, x, b, e);
    if (!mont256_equal(&c, x, y)) { printf("3^15 wrong\n"); return 1; }
    return 0;
}
'''
