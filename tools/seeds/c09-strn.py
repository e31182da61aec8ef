prop="C09"; mods="sm4 memory_utils ghash"; flags="OPT"
needs="a tag that contains a zero byte, altered after that byte"
breaks="the tags are compared as character strings, so the comparison stops at a zero byte"
edits=[("include/gmlib/block_cipher_mode/gcm_mode.h","        if (std::memcmp(tag, tag_, 16) != 0)","        if (std::strncmp((const char*)tag, (const char*)tag_, 16) != 0)")]
demo=r'''
#include <gmlib/sm4/sm4.h>
#include <gmlib/block_cipher_mode/gcm_mode.h>
#include <cstdio>
#include <stdexcept>
int main(){
    unsigned char k[16] = {1}, iv[12] = {2}, p[20] = {3}, ct[32], t[16], w[32]; size_t n;
    for (int j = 0; j < 3000; j++) {
        iv[0] = j, iv[1] = j >> 8;
        block_cipher_mode::GcmEncryptor<sm4::SM4> e(k, iv, 12, p, 0); e.do_final(ct, &n, p, 20); e.get_tag(t);
        t[15] ^= 1;
        block_cipher_mode::GcmDecryptor<sm4::SM4> d(k, iv, 12, p, 0); d.set_tag(t);
        try { d.do_final(w, &n, ct, 20); printf("altered tag accepted, message %d\n", j); return 1; } catch (const std::exception&) {}
    }
    return 0;
}
'''
