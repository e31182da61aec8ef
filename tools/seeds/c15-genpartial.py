from _fix import FIX
prop="C15"; mods="number sm2 sm3 asn1 memory_utils"; flags="OPT"
needs="generating a key over a previous one with a random source that fails part way"
breaks="the private half is overwritten with the source's raw bytes while the public half stays"
edits=[("include/gmlib/sm2/sm2.h","    std::uint8_t priv_key[32];\n    // gen priv_key, [1, n-2]\n    internal::sm2_bn_t d;\n    rng.gen(priv_key, 32);\n    internal::sm2_bn_from_bytes(d, priv_key);","    // gen priv_key, [1, n-2]\n    internal::sm2_bn_t d;\n    rng.gen(priv_, 32);\n    internal::sm2_bn_from_bytes(d, priv_);")]
demo=FIX+r'''
struct Bad : rng::Rng { const char* name() const override { return "bad"; } void gen(void* o, std::size_t n) override { memset(o, 0x5a, n / 2); throw 7; } };
int main(){
    sm2::SM2PrivateKey<sm3::SM3> k(num(77).data()); Bad r;
    try { k.gen_priv(r); } catch (int) {}
    unsigned char o[32]; k.get_priv(o);
    if (memcmp(o, num(77).data(), 32)) { printf("the private half changed\n"); return 1; }
    return 0;
}
'''
