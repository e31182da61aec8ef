from _fix import FIX
prop="C18"; mods="number sm2 sm3 asn1 memory_utils"; flags="OPT"
needs="a plaintext of more than 255 hash blocks (8160 bytes)"
breaks="the key derivation counter is kept in eight bits and repeats the key stream"
edits=[("include/gmlib/sm2/internal/sm2_alg.h","        all_zero = all_zero && (std::memcmp(ZERO, dk, DIGEST_SIZE) == 0);\n        memory_utils::memxor<DIGEST_SIZE>(out, in, dk);\n        out += DIGEST_SIZE, in += DIGEST_SIZE, inl -= DIGEST_SIZE;\n        ct++;","        all_zero = all_zero && (std::memcmp(ZERO, dk, DIGEST_SIZE) == 0);\n        memory_utils::memxor<DIGEST_SIZE>(out, in, dk);\n        out += DIGEST_SIZE, in += DIGEST_SIZE, inl -= DIGEST_SIZE;\n        ct = (ct + 1) & 0xFF;")]
demo=FIX+r'''
int main(){
    Bytes z(20000), o(20000); unsigned char Z[64] = {1};
    sm2_kdf_xor<sm3::SM3>(o.data(), z.data(), z.size(), Z, 64);
    for (unsigned i = 0; i + 1 < 20000 / 32; i++) {
        unsigned char c[4] = {0, 0, (unsigned char)((i + 1) >> 8), (unsigned char)(i + 1)}, d[32];
        sm3::SM3 h; h.update(Z, 64); h.update(c, 4); h.do_final(d);
        if (memcmp(d, &o[32 * i], 32)) { printf("block %u of the mask is wrong\n", i + 1); return 1; }
    }
    return 0;
}
'''
