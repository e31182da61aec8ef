from _fix import FIX
prop="C17"; mods="number sm2 sm3 asn1 memory_utils"; flags="OPT"
needs="an x coordinate at least n (about one point in 2^32)"
breaks="x coordinates between n and p are refused instead of being reduced"
edits=[("src/sm2/sm2p256v1.cpp","void sm2_fn_from_fp(sm2_fn_t r, const sm2_fp_t a) noexcept\n{\n    std::uint8_t buf[32];\n    sm2_fp_to_bytes(buf, a);\n    sm2_fn_from_bytes(r, buf);\n}","void sm2_fn_from_fp(sm2_fn_t r, const sm2_fp_t a) noexcept\n{\n    sm2_bn_t t;\n    sm2_fp_to_bn(t, a);\n    sm2_bn_mod_n_sub1(t);\n    sm2_fn_from_bn(r, t);\n}")]
demo=FIX+r'''
int main(){
    // an x coordinate of n - 1 or more
    sm2_fp_t a; sm2_fn_t r, w; unsigned char b[32];
    memcpy(b, SM2_CURVE_N, 32); b[31] += 4; sm2_fp_from_bytes(a, b); sm2_fn_from_fp(r, a);
    sm2_fn_from_bytes(w, num(4).data());
    if (!sm2_fn_equal(r, w)) { printf("n + 4 does not reduce to 4\n"); return 1; }
    return 0;
}
'''
