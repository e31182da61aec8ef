prop="C06"; mods="sm4 aes memory_utils"; flags="OPT"
needs="CFB decryption in place of at least one whole batch of blocks followed by more data"
breaks="the next chaining value is read from the output (plaintext) instead of the ciphertext"
edits=[("include/gmlib/block_cipher_mode/cfb_mode.h","            std::memcpy(iv_, in + REMAIN, BLOCK_SIZE);\n            cipher_.encrypt_blocks(buffer, buffer, PARALLEL_NUM);\n            memory_utils::memxor<PARALLEL_BYTES>(out, in, buffer);\n","            cipher_.encrypt_blocks(buffer, buffer, PARALLEL_NUM);\n            memory_utils::memxor<PARALLEL_BYTES>(out, in, buffer);\n            std::memcpy(iv_, in + REMAIN, BLOCK_SIZE);\n")]
demo=r'''
#include <gmlib/sm4/sm4_mode.h>
#include <cstdio>
#include <cstring>
int main(){
    unsigned char k[16] = {1}, iv[16] = {2}, m[800], c[800]; size_t l;
    for (int i = 0; i < 800; i++) m[i] = i * 7;
    sm4::SM4CfbEncryptor e(k, iv); e.update(c, &l, m, 800);
    sm4::SM4CfbDecryptor d(k, iv); d.update(c, &l, c, 800);
    if (memcmp(m, c, 800)) { printf("in-place CFB decryption is wrong\n"); return 1; }
    return 0;
}
'''
