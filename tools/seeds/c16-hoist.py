from _fix import FIX
prop="C16"; mods="number sm2 sm3 asn1 memory_utils"; flags="OPT"
needs="a nonce that makes the signer draw again (r = 0, r + k = n or s = 0)"
breaks="the message digest is converted once before the retry loop although its variable is overwritten inside it"
edits=[("include/gmlib/sm2/sm2.h","    hash.do_final(Z);\n\nretry:","    hash.do_final(Z);\n    internal::sm2_fn_from_bytes_ex(e.fn, Z, Hash::DIGEST_SIZE);\n\nretry:"),
("include/gmlib/sm2/sm2.h","    internal::sm2_fn_from_bytes_ex(e.fn, Z, Hash::DIGEST_SIZE);\n    internal::sm2_fn_from_fp(r.fn, kG.a[0]);\n    internal::sm2_fn_add(r.fn, e.fn, r.fn);\n    // if","    internal::sm2_fn_from_fp(r.fn, kG.a[0]);\n    internal::sm2_fn_add(r.fn, e.fn, r.fn);\n    // if")]
demo=FIX+r'''
int main(){
    // digest e = n - k - x1 for k = 6, so that r + k = n; the next value, k = 11, must be used
    sm2_ec_j J; sm2_ec_a A; sm2_ec_j_mul_g(J, num(6).data()); sm2_ec_j_to_a(A, J);
    sm2_fn_t e, x, k; sm2_fn_from_fp(x, A[0]); sm2_fn_from_bytes(k, num(6).data());
    sm2_fn_from_bytes(e, num(0).data()); sm2_fn_sub(e, e, k); sm2_fn_sub(e, e, x);
    HOOK = [&](const Bytes&, unsigned char* d) { sm2_fn_to_bytes(d, e); return true; };
    sm2::SM2PrivateKey<FixHash> key(num(77).data()); ListRng g; g.q = {num(5), num(10)};
    unsigned char a[64], b[64]; key.sign(a, (const unsigned char*)"m", 1, g);
    ListRng h; h.q = {num(10)}; key.sign(b, (const unsigned char*)"m", 1, h);
    if (memcmp(a, b, 64)) { printf("the signature after a redraw differs\n"); return 1; }
    return 0;
}
'''
