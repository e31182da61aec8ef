prop="C04"; mods="aes"; flags="OPT"
needs="two AES-192 or AES-256 decryption keys in a row with the same first half"
breaks="the key schedule of the last key is reused"
edits=[("src/aes/aes_lut.cpp","    std::uint32_t tmp_round_key[60];\n    aes_enc_key_init(tmp_round_key, user_key, bits);\n","""    // decryptors often follow each other with one key
    static thread_local std::uint32_t tmp_round_key[60];
    static thread_local int           tmp_bits = 0;
    bool                              same     = tmp_bits == bits;
    for (int i = 0; same && i < 4; i++)
    {
        same = tmp_round_key[i] == MEM_LOAD32BE(user_key + 4 * i);
    }
    if (!same)
    {
        aes_enc_key_init(tmp_round_key, user_key, bits);
        tmp_bits = bits;
    }
""")]
demo=r'''
#include <gmlib/aes/aes.h>
#include <cstdio>
#include <cstring>
int main(){
    unsigned char k[32], b[16] = {7}, e[16], d[16]; for (int i = 0; i < 32; i++) k[i] = (unsigned char)(i * 5);
    { aes::AES256 x(k, aes::AES256::DECRYPTION); x.decrypt_block(d, b); }
    k[31] ^= 1;
    aes::AES256 y(k, aes::AES256::ENCRYPTION), z(k, aes::AES256::DECRYPTION);
    y.encrypt_block(e, b); z.decrypt_block(d, e);
    if (memcmp(d, b, 16)) { printf("decryption does not undo encryption\n"); return 1; }
    return 0;
}
'''
