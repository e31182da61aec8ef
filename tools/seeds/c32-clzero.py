prop="C32"; mods="ghash memory_utils"; flags="SIMD"
needs="an all-zero block in the authenticated data while the state is not zero"
breaks="the carry-less-multiply GHASH skips zero blocks, other builds do not"
edits=[("src/ghash/ghash_pclmul.cpp","        state = _mm_xor_si128(state, reflect_xmm(X));\n        gfmul(state, H, &state);\n","        if (_mm_movemask_epi8(_mm_cmpeq_epi8(X, _mm_setzero_si128())) != 0xffff || block_num == 1)\n        {\n            X     = _mm_xor_si128(state, reflect_xmm(X));\n            gfmul(X, H, &state);\n        }\n")]
demo=r'''
#include <gmlib/ghash/internal/ghash_pclmul.h>
#include <gmlib/ghash/internal/ghash_common.h>
#include <cstdio>
#include <cstring>
int main(){
    unsigned char H[16], in[48] = {}, a[16], b[16]; for (int i = 0; i < 16; i++) H[i] = i * 17 + 3, in[i] = i + 1, in[32 + i] = 7 * i;
    ghash::internal::pclmul::GHashCTX x; ghash::internal::common::GHashCTX y;
    ghash::internal::pclmul::ghash_init(&x, H); ghash::internal::common::ghash_init(&y, H);
    ghash::internal::pclmul::ghash_update_blocks(&x, in, 3); ghash::internal::common::ghash_update_blocks(&y, in, 3);
    ghash::internal::pclmul::ghash_final_block(&x, a, nullptr, 0); ghash::internal::common::ghash_final_block(&y, b, nullptr, 0);
    if (memcmp(a, b, 16)) { printf("the two builds differ on a zero block\n"); return 1; }
    return 0;
}
'''
