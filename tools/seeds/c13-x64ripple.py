prop="C13"; mods="number"; flags="SIMD"
needs="the x86-64 Montgomery product of operands whose product has an all-ones sixth limb that a reduction carry runs into (about one in 2^64)"
breaks="the first reduction step adds its carry to one limb and drops what overflows from there"
edits=[("src/number/mont256_x64.cpp","""    CF = _addcarry_u64(CF, T[3], m_times_p[3], &T[3]);
    CF = _addcarry_u64(CF, T[4], m_times_p[4], &T[4]);
    CF = _addcarry_u64(CF, T[5], 0, &T[5]);
    CF = _addcarry_u64(CF, T[6], 0, &T[6]);
    CF = _addcarry_u64(CF, T[7], 0, &T[7]);
    _addcarry_u64(CF, T8, 0, &T8);

    // step 2""","""    CF = _addcarry_u64(CF, T[3], m_times_p[3], &T[3]);
    CF = _addcarry_u64(CF, T[4], m_times_p[4], &T[4]);
    T[5] += CF;

    // step 2""")]
demo=r'''
#include <gmlib/number/internal/mont256_x64.h>
#include <gmlib/number/internal/uint256_x64.h>
#include <cstdio>
using namespace number::internal::x64;
int main(){
    static const std::uint64_t P[4] = {~0ull, 0xFFFFFFFF00000000ull, ~0ull, 0xFFFFFFFEFFFFFFFFull};
    static const std::uint64_t P2[4] = {~0ull - 2, 0xFFFFFFFF00000000ull, ~0ull, 0xFFFFFFFEFFFFFFFFull};
    static const std::uint64_t R[4] = {1, 0xFFFFFFFFull, 0, 0x100000000ull};
    Mont256CTX c = {P, P2, R, R, mont_compute_N_(P[0])};
    mont256_t b = {1, 0, 0, 1};
    for (std::uint64_t k = 1; k < 4000; k++) {
        mont256_t a = {k * 0x9E3779B97F4A7C15ull, ~0ull - k % 3, ~0ull, 0x7FFFFFFFFFFFFFFFull - k}, n, x, y;
        mont256_mul(&c, x, a, b); mont256_neg(&c, n, a); mont256_mul(&c, y, n, b); mont256_neg(&c, y, y);
        if (!mont256_equal(&c, x, y)) { printf("(-a)b != -(ab) for k=%llu\n", (unsigned long long)k); return 1; }
    }
    return 0;
}
'''
