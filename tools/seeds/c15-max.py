from _fix import FIX
prop="C15"; mods="number sm2 sm3 asn1 memory_utils"; flags="OPT"
needs="the private key n - 1"
breaks="n - 1 is accepted, for which 1 + d has no inverse and signing never ends"
edits=[("include/gmlib/sm2/sm2.h","    internal::sm2_bn_cpy(t, d);\n    internal::sm2_bn_mod_n_sub1(t);\n    if (internal::sm2_bn_equal_zero(d) || internal::sm2_bn_cmp(d, t) != 0)\n","    internal::sm2_bn_from_bytes(t, internal::SM2_CURVE_N);\n    if (internal::sm2_bn_equal_zero(d) || internal::sm2_bn_cmp(d, t) >= 0)\n")]
demo=FIX+r'''
int main(){
    Bytes n(SM2_CURVE_N, SM2_CURVE_N + 32); n[31]--;
    sm2::SM2PrivateKey<sm3::SM3> k;
    try { k.set_priv(n.data()); } catch (...) { return 0; }
    printf("n - 1 accepted\n"); return 1;
}
'''
