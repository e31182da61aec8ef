from _fix import FIX
prop="C17"; mods="number sm2 sm3 asn1 memory_utils"; flags="OPT"
needs="one key, and an identity buffer whose content changes between two verifications"
breaks="the hash of identity and key is remembered by the address of the identity"
edits=[("include/gmlib/sm2/internal/sm2_alg.h","    std::uint8_t  ENTL[2];\n","""    // the same signer verifies many messages: keep the last Z
    static thread_local const std::uint8_t* last_id  = nullptr;
    static thread_local std::size_t         last_len = 0;
    static thread_local std::uint8_t last_xy[64], last_z[Hash::DIGEST_SIZE];
    if (id != nullptr && id == last_id && id_len == last_len &&
        std::memcmp(last_xy, x, 32) == 0 && std::memcmp(last_xy + 32, y, 32) == 0)
    {
        std::memcpy(z, last_z, Hash::DIGEST_SIZE);
        return;
    }
    std::uint8_t  ENTL[2] = {0, 0};
"""),("include/gmlib/sm2/internal/sm2_alg.h","    hash.update(y, 32);\n    hash.do_final(z);\n","""    hash.update(y, 32);
    hash.do_final(z);
    last_id = id, last_len = id_len;
    std::memcpy(last_xy, x, 32);
    std::memcpy(last_xy + 32, y, 32);
    std::memcpy(last_z, z, Hash::DIGEST_SIZE);
""")]
demo=FIX+r'''
int main(){
    sm2::SM2PrivateKey<sm3::SM3> k(num(77).data()); ListRng r; r.q = {num(5)};
    unsigned char id[8] = {1,2,3,4,5,6,7,8}, sig[64], m[3] = {9,9,9};
    k.sign(sig, m, 3, r, id, 8);
    if (!k.verify(sig, m, 3, id, 8)) { printf("own signature refused\n"); return 1; }
    id[3] ^= 1;
    if (k.verify(sig, m, 3, id, 8)) { printf("accepted for another identity\n"); return 1; }
    return 0;
}
'''
