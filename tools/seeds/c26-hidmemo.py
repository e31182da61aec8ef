from _fix9 import FIX9
prop="C26"; mods="number sm9 sm3 memory_utils"; flags="OPT"
needs="two keys in a row for one identity under different function identifiers"
breaks="the hash of the identity is remembered without the function identifier"
edits=[("include/gmlib/sm9/internal/sm9_alg.h","    Hash          hash;\n    std::uint32_t cnt = 1;","""    // the last identity is likely to be asked for again
    static thread_local std::uint8_t last_z[64], last_h[32];
    static thread_local std::size_t  last_len = 65;
    const bool                       keep     = tag01 == 1 && z1_len <= 64;
    if (keep && z1_len == last_len && std::memcmp(last_z, Z1, z1_len) == 0)
    {
        std::memcpy(h, last_h, 32);
        return;
    }
    Hash          hash;
    std::uint32_t cnt  = 1;"""),("include/gmlib/sm9/internal/sm9_alg.h","    sm9_bn_to_bytes(h, h1);\n","""    sm9_bn_to_bytes(h, h1);
    if (keep)
    {
        std::memcpy(last_z, Z1, z1_len);
        std::memcpy(last_h, h, 32);
        last_len = z1_len;
    }
""")]
demo=FIX9+r'''
int main(){
    sm9::SM9SignMasterPrivateKey<sm3::SM3> m(num(77).data());
    unsigned char id[5] = {'A','l','i','c','e'};
    unsigned char a[32], b[32], c[32], d[32], q[64], s[64];
    ListRng r; r.q = {num(5)};
    auto u = m.gen_SignPrivateKey(id, 5, r, 1); u.get_priv(a, b, q, s);
    auto v = m.gen_SignPrivateKey(id, 5, r, 3); v.get_priv(c, d, q, s);
    if (!memcmp(a, c, 32) && !memcmp(b, d, 32)) { printf("same key for both function identifiers\n"); return 1; }
    return 0;
}
'''
