prop="C12"; mods="number"; flags="SIMD"
needs="comparing a value of 65 to 128 bits with a machine word"
breaks="the second limb is left out of the comparison, so 2^64 compares equal to 0"
edits=[("src/number/uint256_x64.cpp","    for (int i = 3; i >= 1; i--)\n    {\n        if (a[i] > 0) return 1;\n    }\n","    for (int i = 3; i > 1; i--)\n    {\n        if (a[i] > 0) return 1;\n    }\n")]
demo=r'''
#include <gmlib/number/internal/uint256_x64.h>
#include <cstdio>
int main(){
    using namespace number::internal::x64;
    std::uint64_t a[4] = {3, 1, 0, 0};
    if (uint256_cmp_uint64(a, 9) != 1) { printf("2^64+3 is not above 9\n"); return 1; }
    return 0;
}
'''
