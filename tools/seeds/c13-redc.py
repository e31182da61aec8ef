prop="C13"; mods="number"; flags="OPT"
needs="a Montgomery product in which a reduction carry runs through a limb of all ones (about one in 2^32 for random operands)"
breaks="the carry is propagated by one limb only"
edits=[("src/number/mont256_common.cpp","        int c = _add_carry(&t[i + 8], t[i + 8], carry, 0);\n        for (int j = 9; j < 8 + 8 - i && c != 0; j++)\n        {\n            c = _add_carry(&t[i + j], t[i + j], 0, c);\n        }\n        t16 += c;\n","        int c = _add_carry(&t[i + 8], t[i + 8], carry, 0);\n        if (i < 7)\n        {\n            c = _add_carry(&t[i + 9], t[i + 9], 0, c);\n        }\n        t16 += c;\n")]
demo=r'''
#include <gmlib/number/internal/mont256_common.h>
#include <gmlib/number/internal/uint256_common.h>
#include <cstdio>
#include <cstring>
using namespace number::internal::common;
int main(){
    // p = 2^256 - 189, R mod p = 189, R^2 mod p = 189^2
    static const std::uint32_t P[8] = {0xffffffffu - 188, ~0u, ~0u, ~0u, ~0u, ~0u, ~0u, ~0u};
    static const std::uint32_t P2[8] = {0xffffffffu - 190, ~0u, ~0u, ~0u, ~0u, ~0u, ~0u, ~0u};
    static const std::uint32_t R[8] = {189}, RR[8] = {189 * 189};
    Mont256CTX c = {P, P2, R, RR, mont_compute_N_(P[0])};
    mont256_t a, b, x; unsigned char o[32], w[32] = {0};
    // (p - 1)/R squared and (p - 2)/R * (p - 3)/R: raw limbs p-1, p-2, p-3
    for (std::uint32_t k = 1; k < 200; k++) for (std::uint32_t l = 1; l < 40; l++) {
        uint256_cpy(a, P); a[0] -= k; uint256_cpy(b, P); b[0] -= l;
        mont256_t na, nb, y; mont256_neg(&c, na, a); mont256_neg(&c, nb, b);
        mont256_mul(&c, x, a, b); mont256_mul(&c, y, na, nb);
        if (!mont256_equal(&c, x, y)) { printf("(-a)(-b) != ab for a=%u b=%u\n", k, l); return 1; }
    }
    return 0;
}
'''
