from _fix import FIX
prop="C18"; mods="number sm2 sm3 asn1 memory_utils"; flags="OPT"
needs="a short plaintext whose derived mask is all zero (1 in 256 for one byte)"
breaks="masks shorter than a digest are never found all zero, so the plaintext is sent in the clear"
edits=[("include/gmlib/sm2/internal/sm2_alg.h","        all_zero = all_zero && (std::memcmp(ZERO, dk, inl) == 0);","        all_zero = all_zero && (std::memcmp(ZERO, dk, DIGEST_SIZE) == 0);")]
demo=FIX+r'''
int main(){
    int zero = 0;
    for (int i = 0; i < 4000; i++) {
        unsigned char Z[64] = {1, (unsigned char)i, (unsigned char)(i >> 8)}, m = 0x41, c;
        int r = sm2_kdf_xor<sm3::SM3>(&c, &m, 1, Z, 64);
        if (c == m) { zero++; if (!r) { printf("an all-zero mask is used\n"); return 1; } }
    }
    return zero ? 0 : 2;
}
'''
