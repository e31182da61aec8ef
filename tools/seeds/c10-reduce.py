prop="C10"; mods="ghash"; flags="OPT"
from _tab import tabedit
needs="the table-based GHASH and a multiplication that reduces one particular byte value"
breaks="one entry of the reduction table is mistyped, so such products are wrong"
edits=[tabedit("src/ghash/ghash_lut256.cpp", " REDUCE_TABLE[256]", 222, 0x20)]
demo=r'''
#include <gmlib/ghash/ghash.h>
#include <gmlib/ghash/internal/ghash_common.h>
#include <cstdio>
#include <cstring>
int main(){
    unsigned char k[16], in[64], a[16], b[16]; unsigned x = 1;
    for (int t = 0; t < 3000; t++) {
        for (int i = 0; i < 64; i++) x = x * 1103515245 + 12345, k[i % 16] = x >> 16, in[i] = x >> 20;
        ghash::GHash g(k); g.do_final(a, in, 64);
        ghash::internal::common::GHashCTX c; ghash::internal::common::ghash_init(&c, k); ghash::internal::common::ghash_update_blocks(&c, in, 4); ghash::internal::common::ghash_final_block(&c, b, 0, 0);
        if (memcmp(a, b, 16)) { printf("input %d hashes differently in the two implementations\n", t); return 1; }
    }
    return 0;
}
'''
