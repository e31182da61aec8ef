prop="C04"; mods="aes"; flags="OPT"
from _tab import tabedit
needs="the table-based AES and a ciphertext whose last decryption round looks up one particular inverse S-box entry"
breaks="one entry of the inverse S-box is mistyped: one byte of such blocks decrypts wrongly"
edits=[tabedit("src/aes/aes_lut.cpp", " INV_SBOX[256]", 169, 0x40)]
demo=r'''
#include <gmlib/aes/aes.h>
#include <cstdio>
#include <cstring>
int main(){
    unsigned char k[32], in[16], a[16], b[16]; unsigned x = 1;
    for (int t = 0; t < 3000; t++) {
        for (int i = 0; i < 32; i++) x = x * 1103515245 + 12345, k[i] = x >> 16, in[i % 16] = x >> 20;
        aes::AES256 e(k, 1), d(k, 0); e.encrypt_block(a, in); d.decrypt_block(b, a);
        if (memcmp(in, b, 16)) { printf("block %d does not round-trip\n", t); return 1; }
    }
    return 0;
}
'''
