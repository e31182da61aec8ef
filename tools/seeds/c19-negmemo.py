from _fix import FIX
prop="C19"; mods="number sm2 sm3 asn1 memory_utils"; flags="OPT"
needs="decrypting an authentic ciphertext and then the one with the negated point"
breaks="the last scalar multiplication is remembered by the scalar and the x coordinate"
edits=[("src/sm2/sm2p256v1.cpp","    sm2_ec_j T;\n    sm2_ec_a P_neg;\n    int      i;\n    int      c = number","""    // ciphertexts are often opened twice, first for their length
    static thread_local sm2_ec_j          last_R;
    static thread_local sm2_fp_t          last_x;
    static thread_local number::uint256_t last_e;
    static thread_local bool              valid = false;
    if (valid && number::uint256_equal(e, last_e) && sm2_fp_equal(last_x, P[0]))
    {
        sm2_ec_j_cpy(R, last_R);
        return;
    }
    sm2_fp_cpy(last_x, P[0]);
    number::uint256_cpy(last_e, e);
    sm2_ec_j T;
    sm2_ec_a P_neg;
    int      i = 0;
    int      c = number"""),("src/sm2/sm2p256v1.cpp","            sm2_ec_j_add_a(T, T, P_neg);\n        }\n    }\n    sm2_ec_j_cpy(R, T);","            sm2_ec_j_add_a(T, T, P_neg);\n        }\n    }\n    sm2_ec_j_cpy(last_R, T);\n    valid = true;\n    sm2_ec_j_cpy(R, T);")]
demo=FIX+r'''
int main(){
    sm2::SM2PrivateKey<sm3::SM3> k(num(77).data()); ListRng r; r.q = {num(5)};
    unsigned char ct[200], pt[10] = {1,2,3}, o[200]; std::size_t n = 0, l;
    k.encrypt(ct, &n, pt, 10, r);
    k.decrypt(o, &l, ct, n);
    sm2_ec_a P, Q; sm2_ec_a_from_bytes(P, &l, ct, 65); sm2_ec_a_neg(Q, P); unsigned char c2[200]; memcpy(c2, ct, n);
    sm2_ec_a_to_bytes04(c2 + 1, Q);
    try { k.decrypt(o, &l, c2, n); } catch (std::exception&) { return 0; }
    printf("altered ciphertext accepted\n");
    return 1;
}
'''
