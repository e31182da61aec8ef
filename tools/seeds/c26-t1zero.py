from _fix9 import FIX9
prop="C26"; mods="number sm9 sm3 memory_utils"; flags="OPT"
needs="a master key equal to -H1(ID||hid)"
breaks="a user key is issued (from the inverse of zero) where the standard demands a new master key"
edits=[("include/gmlib/sm9/sm9.h","    internal::sm9_fn_add(t1, t1, ks);\n    if (internal::sm9_fn_equal_zero(t1))","    internal::sm9_fn_add(t1, ks, t1);\n    if (internal::sm9_fn_equal_zero(ks))")]
demo=FIX9+r'''
int main(){
    unsigned char h[32], hid = 1; sm9_Hn<sm3::SM3>(h, (const unsigned char*)"Bob", 3, &hid, 1, 1);
    unsigned char k[32]; int c = 0; for (int i = 31; i >= 0; i--) { int d = SM9_CURVE_N[i] - h[i] - c; c = d < 0; k[i] = d; }
    ListRng g; g.q = {Bytes(32, 9)}; sm9::SM9SignMasterPrivateKey<sm3::SM3> m(k);
    try { m.gen_SignPrivateKey((const unsigned char*)"Bob", 3, g); } catch (const std::exception&) { return 0; }
    printf("a user key was issued for t1 = 0\n"); return 1;
}
'''
