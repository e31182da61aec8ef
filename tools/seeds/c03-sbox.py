prop="C03"; mods="sm4"; flags="OPT"
needs="the optimised SM4 build and a key whose schedule looks up one particular S-box entry"
breaks="one entry of the key schedule's S-box is mistyped, so such keys give wrong round keys"
from _tab import tabedit
edits=[tabedit("src/sm4/sm4_lang18.cpp", "SM4_SBOX[256]", 177, 0x10)]
demo=r'''
#include <gmlib/sm4/sm4.h>
#include <gmlib/sm4/internal/sm4_common.h>
#include <cstdio>
#include <cstring>
int main(){
    unsigned char k[16], in[16] = {9}, a[16], b[16]; unsigned x = 1;
    for (int t = 0; t < 3000; t++) {
        for (int i = 0; i < 16; i++) x = x * 1103515245 + 12345, k[i] = x >> 16;
        sm4::SM4 e(k, sm4::SM4::ENCRYPTION); e.encrypt_block(a, in);
        sm4::internal::common::Sm4CTX c; sm4::internal::common::sm4_enc_key_init(&c, k); sm4::internal::common::sm4_enc_block(&c, b, in);
        if (memcmp(a, b, 16)) { printf("key %d gives different ciphertexts in the two implementations\n", t); return 1; }
    }
    return 0;
}
'''
