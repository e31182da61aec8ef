prop="C02"; mods="sm3"
needs="an object re-keyed with a key longer than the hash block after a key of more than 32 bytes"
breaks="the key block keeps bytes 32..63 of the previous key behind the digest of the new key (fresh objects start from zeros and are right)"
edits=[("include/gmlib/hash_lib/hmac.h","    std::uint8_t K_[Hash::BLOCK_SIZE];","    std::uint8_t K_[Hash::BLOCK_SIZE] = {0};"),
("include/gmlib/hash_lib/hmac.h","""        std::memset(K_, 0, Hash::BLOCK_SIZE);
        if (key_len > Hash::BLOCK_SIZE)""","""        if (key_len > Hash::BLOCK_SIZE)"""),
("include/gmlib/hash_lib/hmac.h","            std::memcpy(K_, key, key_len);\n","            std::memcpy(K_, key, key_len);\n            std::memset(K_ + key_len, 0, Hash::BLOCK_SIZE - key_len);\n")]
demo=r'''
#include <gmlib/hash_lib/hmac.h>
#include <gmlib/sm3/sm3.h>
#include <cstdio>
#include <cstring>
int main(){
    unsigned char k[100], m[3] = {1,2,3}, a[32], b[32], t[32];
    for (int i = 0; i < 100; i++) k[i] = i * 3 + 1;
    for (int prev : {0, 1, 20, 40, 64, 100}) for (int kl : {0, 5, 63, 64, 65, 100}) {
        hash_lib::HMac<sm3::SM3> f(k, kl), g(k, prev);
        f.do_final(a, m, 3); g.do_final(t, m, 3); g.set_key(k, kl); g.do_final(b, m, 3);
        if (memcmp(a, b, 32)) { printf("re-keyed object differs from a fresh one: %d then %d\n", prev, kl); return 1; }
    }
    return 0;
}
'''
