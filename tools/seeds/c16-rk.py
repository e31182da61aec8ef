from _fix import FIX
prop="C16"; mods="number sm2 sm3 asn1 memory_utils"; flags="OPT"
needs="a random value k with r + k = n"
breaks="such a k is used; the resulting signature reveals the private key (s = k) instead of being drawn again"
edits=[("include/gmlib/sm2/sm2.h","    sm2_fn_X","")]
edits=[("include/gmlib/sm2/sm2.h","    if (internal::sm2_fn_equal_zero(r.fn) ||\n        internal::sm2_fn_equal_zero(tmp.fn))\n    {\n        goto retry;","    if (internal::sm2_fn_equal_zero(r.fn) &&\n        internal::sm2_fn_equal_zero(tmp.fn))\n    {\n        goto retry;")]
demo=FIX+r'''
int main(){
    // digest e = n - k - x1 for k = 6, so that r + k = n; the next value, k = 11, must be used
    sm2_ec_j J; sm2_ec_a A; sm2_ec_j_mul_g(J, num(6).data()); sm2_ec_j_to_a(A, J);
    sm2_fn_t e, x, k; sm2_fn_from_fp(x, A[0]); sm2_fn_from_bytes(k, num(6).data());
    sm2_fn_from_bytes(e, num(0).data()); sm2_fn_sub(e, e, k); sm2_fn_sub(e, e, x);
    HOOK = [&](const Bytes&, unsigned char* d) { sm2_fn_to_bytes(d, e); return true; };
    sm2::SM2PrivateKey<FixHash> key(num(77).data()); ListRng g; g.q = {num(5), num(10)};
    unsigned char a[64], b[64]; key.sign(a, (const unsigned char*)"m", 1, g);
    ListRng h; h.q = {num(10)}; key.sign(b, (const unsigned char*)"m", 1, h);
    if (memcmp(a, b, 64)) { printf("the value with r + k = n was used\n"); return 1; }
    return 0;
}
'''
