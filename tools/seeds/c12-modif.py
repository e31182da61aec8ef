prop="C12"; mods="number"; flags="SIMD"
needs="reducing a byte string modulo a divisor of fewer than 256 bits"
breaks="each 256-bit chunk has the divisor subtracted at most once, so it can stay above the divisor"
edits=[("src/number/uint256_x64.cpp","    if (data_len >= 32)\n    {\n        uint256_from_bytes(t, data);\n        while (uint256_cmp(t, divisor) >= 0)\n","    if (data_len >= 32)\n    {\n        uint256_from_bytes(t, data);\n        if (uint256_cmp(t, divisor) >= 0)\n"),
]
demo=r'''
#include <gmlib/number/internal/uint256_x64.h>
#include <cstdio>
#include <cstring>
int main(){
    using namespace number::internal::x64;
    std::uint64_t d[4] = {5, 0, 0, 0x2000000000000000ull}, r[4]; unsigned char b[32]; memset(b, 0xff, 32);
    uint256_mod(r, b, 32, d);
    if (uint256_cmp(r, d) >= 0) { printf("remainder not below the divisor\n"); return 1; }
    return 0;
}
'''
