prop="C10"; mods="ghash"; flags="OPT"
needs="two hash keys in a row that share their first eight bytes"
breaks="the table of the last key is reused"
edits=[("src/ghash/ghash_lut256.cpp","    ctx->state[1] = 0;\n    gf128_init_lut_table(ctx->T, H);","""    ctx->state[1] = 0;
    // tables are expensive: keep the last one
    static thread_local std::uint64_t last[256][2];
    const std::uint64_t* one = last[REV_U8[1]];
    if (one[0] == 0 || one[0] != MEM_LOAD64BE(H))
    {
        gf128_init_lut_table(last, H);
    }
    for (int i = 0; i < 256; i++)
    {
        ctx->T[i][0] = last[i][0], ctx->T[i][1] = last[i][1];
    }""")]
demo=r'''
#include <gmlib/ghash/ghash.h>
#include <cstdio>
#include <cstring>
int main(){
    unsigned char H[16], x[16] = {1,2,3}, d1[16], d2[16]; for (int i = 0; i < 16; i++) H[i] = (unsigned char)(i * 17 + 1);
    ghash::GHash a(H); a.do_final(d1, x, 16);
    H[12] ^= 0x40;
    ghash::GHash b(H); b.do_final(d2, x, 16);
    if (!memcmp(d1, d2, 16)) { printf("the second key has no effect\n"); return 1; }
    return 0;
}
'''
