from _fix import FIX
prop="C19"; mods="number sm2 sm3 asn1 memory_utils"; flags="OPT"
needs="a truncated uncompressed ciphertext of 65 to 96 bytes"
breaks="the shortest possible ciphertext is taken to be the compressed one, and the length of the plaintext wraps around"
edits=[("include/gmlib/sm2/sm2.h","    if (c_len == 0)\n    {\n        throw std::runtime_error(\"invalid sm2 ciphertext\");\n    }\n    std::size_t C1C3_len;","    if (c_len < 33 + Hash::DIGEST_SIZE)\n    {\n        throw std::runtime_error(\"invalid sm2 ciphertext\");\n    }\n    std::size_t C1C3_len;"),
("include/gmlib/sm2/sm2.h","    if (c_len < C1C3_len)\n    {\n        throw std::runtime_error(\"invalid sm2 ciphertext\");\n    }\n    return c_len - C1C3_len;","    return c_len - C1C3_len;")]
demo=FIX+r'''
int main(){
    unsigned char c[80] = {4};
    try { std::size_t l = sm2::SM2PrivateKey<sm3::SM3>::plaintext_len(c, 80); printf("plaintext of %zu bytes announced\n", l); } catch (...) { return 0; }
    return 1;
}
'''
