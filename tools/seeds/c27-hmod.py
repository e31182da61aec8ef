from _fix9 import FIX9
prop="C27"; mods="number sm9 sm3 memory_utils"; flags="OPT"
needs="a signature whose h part is replaced by h + N (fits in 32 bytes for small h)"
breaks="the signature value h is compared modulo N, so a second encoding of each signature with small h verifies"
edits=[("include/gmlib/sm9/sm9.h","    // check h2 == h'?\n    return std::memcmp(h_, h, 32) == 0;","    // check h2 == h'?\n    internal::sm9_fn_t a, b;\n    internal::sm9_fn_from_bytes(a, h_);\n    internal::sm9_fn_from_bytes(b, h);\n    return internal::sm9_fn_equal(a, b);")]
demo=FIX9+r'''
int main(){
    const unsigned char* id = (const unsigned char*)"Alice"; sm9::SM9SignMasterPrivateKey<sm3::SM3> m(num(77).data());
    ListRng g; g.q = {Bytes(32, 9)}; auto k = m.gen_SignPrivateKey(id, 5, g);
    int seen = 0;
    for (int i = 1; i < 60 && seen < 3; i++) {
        g.q = {num(i * 101)}; g.i = 0; unsigned char s[97]; std::size_t n; k.sign(s, &n, id, 5, g);
        if (s[0] >= 0x49) continue;
        seen++;
        int c = 0; for (int j = 31; j >= 0; j--) { int d = s[j] + SM9_CURVE_N[j] + c; s[j] = d; c = d >> 8; }
        if (m.fetch_SignPublicKey().verify(s, n, id, 5, id, 5)) { printf("h + N was accepted\n"); return 1; }
    }
    return 0;
}
'''
