from _fix import FIX
prop="C17"; mods="number sm2 sm3 asn1 memory_utils"; flags="OPT"
needs="a valid signature whose r is so small that r + n still fits in 32 bytes"
breaks="r is checked against zero only, so (r + n, s) is accepted as well"
edits=[("include/gmlib/sm2/sm2.h","    if (internal::sm2_bn_equal_zero(r.bn) ||\n        internal::sm2_bn_cmp(r.bn, tmp.bn) >= 0 ||\n        internal::sm2_bn_equal_zero(s.bn) ||\n        internal::sm2_bn_cmp(s.bn, tmp.bn) >= 0)\n","    if (internal::sm2_bn_equal_zero(r.bn) ||\n        internal::sm2_bn_equal_zero(s.bn) ||\n        internal::sm2_bn_cmp(s.bn, tmp.bn) >= 0)\n")]
demo=FIX+r'''
int main(){
    // s = 3, r = 4, e = r - x([s]G + [7]P)
    sm2::SM2PrivateKey<FixHash> key(num(77).data());
    sm2_ec_j J; sm2_ec_a A; sm2_ec_j_mul_g(J, num(3 + 7 * 77).data()); sm2_ec_j_to_a(A, J);
    sm2_fn_t e, x; sm2_fn_from_fp(x, A[0]); sm2_fn_from_bytes(e, num(4).data()); sm2_fn_sub(e, e, x);
    HOOK = [&](const Bytes&, unsigned char* d) { sm2_fn_to_bytes(d, e); return true; };
    unsigned char s[64] = {0}; s[31] = 4; s[63] = 3;
    if (!key.verify(s, s, 1)) { printf("the good signature is refused\n"); return 2; }
    sm2_bn_t n, r; sm2_bn_from_bytes(n, SM2_CURVE_N); sm2_bn_add_uint32(r, n, 4); sm2_bn_to_bytes(s, r);
    if (key.verify(s, s, 1)) { printf("r + n accepted\n"); return 1; }
    return 0;
}
'''
