prop="C02"; mods="sm3"; flags="OPT"
needs="a key of exactly one hash block whose buffer is reused or freed before the MAC is finished"
breaks="the outer padding is taken from the caller's key buffer when the MAC is finished instead of from the object's own copy"
edits=[("include/gmlib/hash_lib/hmac.h","    std::uint8_t K_[Hash::BLOCK_SIZE];\n","    std::uint8_t        K_[Hash::BLOCK_SIZE];\n    const std::uint8_t* k_ = K_;\n"),
("include/gmlib/hash_lib/hmac.h","            std::memcpy(K_, key, key_len);\n        }\n\n        std::uint8_t i_pad","            std::memcpy(K_, key, key_len);\n        }\n        // a full block needs no padding\n        k_ = key_len == Hash::BLOCK_SIZE ? key : K_;\n\n        std::uint8_t i_pad"),
("include/gmlib/hash_lib/hmac.h","o_pad[i] = K_[i] ^ 0x5c","o_pad[i] = k_[i] ^ 0x5c")]
demo=r'''
#include <gmlib/sm3/sm3.h>
#include <gmlib/hash_lib/hmac.h>
#include <cstdio>
#include <cstring>
int main(){
    unsigned char k[64], a[32], b[32]; memset(k, 7, 64);
    hash_lib::HMac<sm3::SM3> h(k, 64); h.do_final(a, k, 0);
    hash_lib::HMac<sm3::SM3> g(k, 64); memset(k, 0, 64); g.do_final(b, k, 0);
    if (memcmp(a, b, 32)) { puts("the MAC depends on the key buffer after set_key"); return 1; }
    return 0;
}
'''
