from _fix9 import FIX9
prop="C26"; mods="number sm9 sm3 memory_utils"; flags="OPT"
needs="a master key of 32 bytes set twice where the second is refused after the key bytes were stored"
breaks="a refused master key replaces the key bytes while the public half stays"
edits=[("include/gmlib/sm9/sm9.h","    if (internal::sm9_bn_equal_zero(ks) || internal::sm9_bn_cmp(ks, N) >= 0)\n    {\n        throw std::runtime_error(\"invalid sm9 priv key\");\n    }\n    // set priv and pub\n    std::memcpy(ks_, priv_key, 32);\n","    std::memcpy(ks_, priv_key, 32);\n    if (internal::sm9_bn_equal_zero(ks) || internal::sm9_bn_cmp(ks, N) >= 0)\n    {\n        throw std::runtime_error(\"invalid sm9 priv key\");\n    }\n    // set pub\n")]
demo=FIX9+r'''
int main(){
    sm9::SM9SignMasterPrivateKey<sm3::SM3> m(num(77).data());
    try { m.set_priv(SM9_CURVE_N); } catch (const std::exception&) {}
    unsigned char o[32]; m.get_priv(o);
    if (memcmp(o, num(77).data(), 32)) { printf("a refused key replaced the previous one\n"); return 1; }
    return 0;
}
'''
