prop="C07"; mods="sm4 aes ghash memory_utils"; flags="OPT"
needs="a GCM decryptor initialised again after a message"
breaks="the length of the previous ciphertext is added to the next, so an authentic message is refused"
edits=[("include/gmlib/block_cipher_mode/gcm_mode.h","    std::uint64_t aad_len_, ct_len_;\n","    std::uint64_t aad_len_, ct_len_ = 0;\n"),
("include/gmlib/block_cipher_mode/gcm_mode.h","        aad_len_ = aad_len;\n        ct_len_  = 0;\n","        aad_len_ = aad_len;\n")]
demo=r'''
#include <gmlib/sm4/sm4_mode.h>
#include <cstdio>
#include <cstring>
int main(){
    unsigned char key[16] = {1}, iv[12] = {2}, pt[32] = {3}, ct[48], out[48], tag[16]; std::size_t a, b;
    sm4::SM4GcmEncryptor e(key, iv, 12, nullptr, 0);
    e.update(ct, &a, pt, 32); e.do_final(ct + a, &b); e.get_tag(tag);
    sm4::SM4GcmDecryptor d;
    for (int i = 0; i < 2; i++) {
        d.init(key, iv, 12, nullptr, 0); d.set_tag(tag);
        try { d.update(out, &a, ct, 32); d.do_final(out + a, &b); } catch (const std::exception&) { printf("message %d refused\n", i); return 1; }
    }
    return 0;
}
'''
