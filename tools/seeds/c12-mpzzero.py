prop="C12"; mods="number"; flags="OPT"
needs="a multi-limb product whose multiplier has a zero limb other than the lowest"
breaks="rows for zero limbs are skipped, which leaves the product limb above such a row unset"
edits=[("src/number/mpz_common.cpp","    for (std::size_t ib = 1; ib < limb_size; ib++)\n    {\n        std::uint32_t carry = 0;\n","    for (std::size_t ib = 1; ib < limb_size; ib++)\n    {\n        if (b[ib] == 0) continue; // the row adds nothing\n        std::uint32_t carry = 0;\n"),
("src/number/mpz_common.cpp","    {\n        std::uint32_t carry = 0;\n        for (std::size_t ia = 0; ia < limb_size; ia++)\n        {\n            carry = _mul_carry(&r[0 + ia], a[ia], b[0], carry);\n        }\n        r[0 + limb_size] = carry;\n    }","    std::uint32_t top = 0;\n    for (std::size_t ia = 0; ia < limb_size; ia++)\n    {\n        top = _mul_carry(&r[ia], a[ia], b[0], top);\n    }\n    r[limb_size] = top;")]
demo=r'''
#include <gmlib/number/internal/mpz_common.h>
#include <cstdio>
#include <cstring>
int main(){
    std::uint32_t a[4] = {7, 0, 0, 0}, b[4] = {9, 0, 1, 0}, r[8], e[8] = {63, 0, 7, 0, 0, 0, 0, 0};
    memset(r, 0x5a, sizeof r);
    number::internal::common::mpz_mul(r, a, b, 4);
    if (memcmp(r, e, sizeof e)) { printf("product wrong\n"); return 1; }
    return 0;
}
'''
