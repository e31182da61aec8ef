prop="C05"; mods="sm4 memory_utils"; flags="OPT"
needs="CBC decryption in place, in several updates, of a number of blocks that is not a multiple of the cipher's parallel width"
breaks="the chaining value is taken from the input after the output was written over it"
edits=[("include/gmlib/block_cipher_mode/cbc_mode.h","            std::memcpy(next_iv, in + remain, BLOCK_SIZE);\n\n            cipher_.decrypt_blocks(buffer, in, block_num);","            cipher_.decrypt_blocks(buffer, in, block_num);"),
("include/gmlib/block_cipher_mode/cbc_mode.h","            std::memcpy(out, buffer, remain + BLOCK_SIZE);\n\n            std::memcpy(iv_, next_iv, BLOCK_SIZE);","            std::memcpy(out, buffer, remain + BLOCK_SIZE);\n            std::memcpy(iv_, in + remain, BLOCK_SIZE);")]
demo=r'''
#include <gmlib/sm4/sm4.h>
#include <gmlib/block_cipher_mode/cbc_mode.h>
#include <cstdio>
#include <cstring>
int main(){
    unsigned char k[16] = {1}, iv[16] = {2}, p[96], ct[96], a[96]; size_t n;
    for (int i = 0; i < 96; i++) p[i] = i;
    block_cipher_mode::CbcEncryptor<sm4::SM4> e(k, iv); e.do_final(ct, &n, p, 96);
    memcpy(a, ct, 96);
    block_cipher_mode::CbcDecryptor<sm4::SM4> d(k, iv); d.update(a, &n, a, 48); d.do_final(a + 48, &n, a + 48, 48);
    if (memcmp(a, p, 96)) { puts("in-place decryption in two parts differs"); return 1; }
    return 0;
}
'''
