prop="C09"; mods="sm4 memory_utils ghash"; flags="OPT"
needs="a message without ciphertext (GMAC) whose tag is altered in its last four bytes only"
breaks="only 96 bits of the tag are compared when there is no ciphertext"
edits=[("include/gmlib/block_cipher_mode/gcm_mode.h","        if (std::memcmp(tag, tag_, 16) != 0)","        if (std::memcmp(tag, tag_, ct_len_ ? 16 : 12) != 0)")]
demo=r'''
#include <gmlib/sm4/sm4.h>
#include <gmlib/block_cipher_mode/gcm_mode.h>
#include <cstdio>
#include <stdexcept>
int main(){
    unsigned char k[16] = {1}, iv[12] = {2}, aad[20] = {3}, t[16], w[16]; size_t n;
    block_cipher_mode::GcmEncryptor<sm4::SM4> e(k, iv, 12, aad, 20); e.do_final(w, &n, w, 0); e.get_tag(t);
    for (int i = 0; i < 16; i++) {
        t[i] ^= 4;
        block_cipher_mode::GcmDecryptor<sm4::SM4> d(k, iv, 12, aad, 20); d.set_tag(t);
        try { d.do_final(w, &n, w, 0); printf("tag altered in byte %d is accepted\n", i); return 1; } catch (const std::exception&) {}
        t[i] ^= 4;
    }
    return 0;
}
'''
