from _fix9 import FIX9
prop="C26"; mods="number sm9 sm3 memory_utils"; flags="OPT"
needs="generating a master key over a previous one with a random source that fails part way"
breaks="the private half is overwritten with the source's raw bytes while the public half stays"
edits=[("include/gmlib/sm9/sm9.h","    std::uint8_t priv_key[32];\n    // gen priv_key, [1, N-1]\n    internal::sm9_bn_t d;\n    rng.gen(priv_key, 32);\n    internal::sm9_bn_from_bytes(d, priv_key);","    // gen priv_key, [1, N-1]\n    internal::sm9_bn_t d;\n    rng.gen(ks_, 32);\n    internal::sm9_bn_from_bytes(d, ks_);")]
demo=FIX9+r'''
struct Bad : rng::Rng { const char* name() const override { return "bad"; } void gen(void* o, std::size_t n) override { memset(o, 0x5a, n / 2); throw 7; } };
int main(){
    sm9::SM9SignMasterPrivateKey<sm3::SM3> k(num(77).data()); Bad r;
    try { k.gen_priv(r); } catch (int) {}
    unsigned char o[32]; k.get_priv(o);
    if (memcmp(o, num(77).data(), 32)) { printf("the private half changed\n"); return 1; }
    return 0;
}
'''
