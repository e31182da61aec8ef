prop="C35"; mods="sm4 aes ghash memory_utils"; flags="OPT"
needs="a GCM decryptor copied after its tag has been set"
breaks="the copy does not have the tag and refuses the authentic message"
edits=[("include/gmlib/block_cipher_mode/gcm_mode.h","    GcmDecryptor() = default;\n","    GcmDecryptor() : tag_{}, aad_len_(0), ct_len_(0) {}\n\n    GcmDecryptor(const GcmDecryptor& other)\n        : GctrCryptor<Cipher>(other), hash_(other.hash_), tag_{},\n          aad_len_(other.aad_len_), ct_len_(other.ct_len_)\n    {\n    }\n\n    GcmDecryptor& operator=(const GcmDecryptor& other) = default;\n")]
demo=r'''
#include <gmlib/sm4/sm4_mode.h>
#include <cstdio>
#include <cstring>
int main(){
    unsigned char k[16] = {1}, iv[12] = {2}, m[40] = {3}, c[64], o[64], t[16]; size_t l, n;
    sm4::SM4GcmEncryptor e(k, iv, 12, nullptr, 0); e.update(c, &l, m, 40); e.do_final(c + l, &n); e.get_tag(t);
    sm4::SM4GcmDecryptor d(k, iv, 12, nullptr, 0); d.set_tag(t); sm4::SM4GcmDecryptor f(d);
    try { f.update(o, &l, c, 40); f.do_final(o + l, &n); } catch (std::exception& x) { printf("%s\n", x.what()); return 1; }
    return memcmp(o, m, 40) != 0;
}
'''
