from _fix import FIX
prop="C15"; mods="number sm2 sm3 asn1 memory_utils"; flags="OPT"
needs="a refused private key on an object that already holds one"
breaks="the refused key is stored before it is checked, so the object keeps the old public and the refused private half"
edits=[("include/gmlib/sm2/sm2.h","    internal::sm2_bn_from_bytes(d, priv_key);\n    internal::sm2_bn_cpy(t, d);\n    internal::sm2_bn_mod_n_sub1(t);","    std::memcpy(priv_, priv_key, 32);\n    internal::sm2_bn_from_bytes(d, priv_);\n    internal::sm2_bn_cpy(t, d);\n    internal::sm2_bn_mod_n_sub1(t);"),("include/gmlib/sm2/sm2.h","        throw std::runtime_error(\"invalid sm2 PrivateKey\");\n    }\n    std::memcpy(priv_, priv_key, 32);\n","        throw std::runtime_error(\"invalid sm2 PrivateKey\");\n    }\n")]
demo=FIX+r'''
int main(){
    sm2::SM2PrivateKey<sm3::SM3> k(num(5).data()); Bytes bad(32, 0xff), o(32);
    try { k.set_priv(bad.data()); return 1; } catch (...) {}
    k.get_priv(o.data());
    if (o != num(5)) { printf("a refused key was kept\n"); return 1; }
    return 0;
}
'''
