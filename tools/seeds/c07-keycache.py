prop="C07"; mods="sm4 aes ghash memory_utils"; flags="OPT"
needs="the same object initialised twice with different keys that lie in the same buffer"
breaks="the key schedule is skipped when the key pointer is unchanged, so the object keeps the old key"
edits=[("include/gmlib/block_cipher_mode/gcm_mode.h","        cipher_.set_key(user_key, Cipher::ENCRYPTION);\n        cipher_.encrypt_block(t, ZERO);","        if (user_key != last_key_)\n        {\n            cipher_.set_key(user_key, Cipher::ENCRYPTION);\n            last_key_ = user_key;\n        }\n        cipher_.encrypt_block(t, ZERO);"),
("include/gmlib/block_cipher_mode/gcm_mode.h","    std::uint8_t counter0_[16];\n","    std::uint8_t counter0_[16];\n    const std::uint8_t* last_key_ = nullptr; // avoids repeated key schedules\n")]
demo=r'''
#include <gmlib/sm4/sm4_mode.h>
#include <cstdio>
#include <cstring>
int main(){
    unsigned char k[16] = {1}, iv[12] = {2}, m[40] = {3}, a[64], b[64]; size_t l, n;
    sm4::SM4GcmEncryptor e(k, iv, 12, nullptr, 0); e.update(a, &l, m, 40);
    memset(k, 9, 16); e.init(k, iv, 12, nullptr, 0); e.update(a, &l, m, 40); e.do_final(a + l, &n);
    sm4::SM4GcmEncryptor f(k, iv, 12, nullptr, 0); f.update(b, &l, m, 40); f.do_final(b + l, &n);
    if (memcmp(a, b, 40)) { printf("re-initialised object differs from a new one\n"); return 1; }
    return 0;
}
'''
