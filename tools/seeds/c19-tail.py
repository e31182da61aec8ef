from _fix import FIX
prop="C19"; mods="number sm2 sm3 asn1 memory_utils"; flags="OPT"
needs="a hash value altered in exactly two places that cancel in a 32-bit sum of differences"
breaks="differences between the hash values are added up in words of four bytes, so changes that cancel go unnoticed"
edits=[("include/gmlib/sm2/sm2.h","    if (std::memcmp(buf, C3, Hash::DIGEST_SIZE) != 0)\n    {\n        throw std::runtime_error(\"invalid sm2 ciphertext\");","    int diff = 0;\n    for (std::size_t i = 0; i < Hash::DIGEST_SIZE; i++)\n    {\n        diff += (int)buf[i] - (int)C3[i];\n    }\n    if (diff != 0)\n    {\n        throw std::runtime_error(\"invalid sm2 ciphertext\");")]
demo=FIX+r'''
int main(){
    sm2::SM2PrivateKey<sm3::SM3> key(num(77).data()); ListRng g; g.q = {num(5)};
    unsigned char m[20] = {1, 2, 3}, p[20]; Bytes c(97 + 20); std::size_t l;
    key.encrypt(c.data(), &l, m, 20, g);
    for (int i = 65; i < 96; i++) {
        if (c[i] == 255 || c[i + 1] == 0) continue;
        Bytes f = c; f[i]++, f[i + 1]--; l = 20;
        try { key.decrypt(p, &l, f.data(), f.size()); } catch (...) { continue; }
        printf("an altered ciphertext is accepted\n"); return 1;
    }
    return 0;
}
'''
