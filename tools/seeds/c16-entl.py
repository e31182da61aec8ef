from _fix import FIX
prop="C16"; mods="number sm2 sm3 asn1 memory_utils"; flags="OPT"
needs="an identity of 32 bytes or more"
breaks="the bit length of the identity is written into one byte only, so signatures do not interoperate"
edits=[("include/gmlib/sm2/internal/sm2_alg.h","    ENTL[0]                = entl_len >> 8;\n    ENTL[1]                = entl_len & 0xFF;","    ENTL[0]                = (entl_len & 0xFF) >> 8;\n    ENTL[1]                = entl_len & 0xFF;")]
demo=FIX+r'''
int main(){
    Bytes id(40, 'a'), seen;
    HOOK = [&](const Bytes& m, unsigned char*) { if (seen.empty()) seen = m; return false; };
    sm2::SM2PrivateKey<FixHash> key(num(77).data()); ListRng g; g.q = {num(5)};
    unsigned char s[64]; key.sign(s, id.data(), 1, g, id.data(), 40);
    if (seen[0] != 1 || seen[1] != 0x40) { printf("identity length hashed as %d\n", seen[0] * 256 + seen[1]); return 1; }
    return 0;
}
'''
