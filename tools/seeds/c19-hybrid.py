prop="C19"; mods="number sm2 sm3 asn1 memory_utils"; flags="OPT"
needs="a ciphertext of several blocks altered in its hash value only, at and after a zero byte"
breaks="the hash value is compared as a string"
edits=[("include/gmlib/sm2/sm2.h","    if (std::memcmp(buf, C3, Hash::DIGEST_SIZE) != 0)","    if (std::strncmp((const char*)buf, (const char*)C3, Hash::DIGEST_SIZE) != 0)")]
demo=r'''
#include <gmlib/sm2/sm2.h>
#include <gmlib/sm3/sm3.h>
#include <cstdio>
#include <cstring>
#include <stdexcept>
struct Ctr : rng::Rng { unsigned n = 0; const char* name() const noexcept override { return "Ctr"; } void gen(void* o, std::size_t l) override { n++; memset(o, 7, l); memcpy(o, &n, l < 4 ? l : 4); } };
int main(){
    unsigned char d[32] = {}, c[200], p[200]; d[31] = 9; std::size_t n, l; Ctr r;
    sm2::SM2PrivateKey<sm3::SM3> k(d); int tried = 0;
    for (int i = 0; i < 3000 && tried < 20; i++) {
        k.fetch_pub().encrypt(c, &n, (const unsigned char*)"abc", 3, r);
        int z = -1; for (int j = 0; j < 31; j++) if (c[65 + j] == 0) { z = j; break; }
        if (z < 0) continue;
        tried++; c[65 + 31] ^= 0x55;
        try { k.decrypt(p, &l, c, n); puts("an altered ciphertext is accepted"); return 1; } catch (const std::exception&) {}
    }
    return 0;
}
'''
