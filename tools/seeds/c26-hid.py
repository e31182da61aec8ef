from _fix9 import FIX9
prop="C26"; mods="number sm9 sm3 memory_utils"; flags="OPT"
needs="a key identifier other than the default, compared with the standard's value"
breaks="the key identifier is ignored both when a user key is issued and when a signature is verified"
edits=[("include/gmlib/sm9/internal/sm9_alg.h","    hash.update(Z2, z2_len);","    if (z2_len == 1)\n    {\n        const std::uint8_t HID = tag01; // one identifier byte\n        hash.update(&HID, 1);\n    }\n    else\n    {\n        hash.update(Z2, z2_len);\n    }")]
demo=FIX9+r'''
int main(){
    ListRng g; g.q = {Bytes(32, 9)}; 
    sm9::SM9SignMasterPrivateKey<sm3::SM3> m(num(77).data());
    auto a = m.gen_SignPrivateKey((const unsigned char*)"Alice", 5, g, 1), b = m.gen_SignPrivateKey((const unsigned char*)"Alice", 5, g, 3);
    unsigned char x[32], y[32], u[32], v[32], p[64], q[64]; a.get_priv(x, y, p, q); b.get_priv(u, v, p, q);
    if (!memcmp(x, u, 32)) { printf("identifiers 1 and 3 give the same key\n"); return 1; }
    return 0;
}
'''
