from _fix9 import FIX9
prop="C29"; mods="number sm9 sm3 memory_utils"; flags="OPT"
needs="a random source that raises during regeneration of a master key, after writing some bytes"
breaks="the master key object holds the partly drawn bytes after the failure, with the old public key"
edits=[("include/gmlib/sm9/sm9.h","    std::uint8_t priv_key[32];\n    // gen priv_key, [1, N-1]\n    internal::sm9_bn_t d;\n    rng.gen(priv_key, 32);\n    internal::sm9_bn_from_bytes(d, priv_key);","    // gen priv_key, [1, N-1]\n    internal::sm9_bn_t d;\n    rng.gen(ks_, 32);\n    internal::sm9_bn_from_bytes(d, ks_);")]
demo=FIX9+r'''
struct Bad : rng::Rng { const char* name() const override { return "bad"; } void gen(void* o, std::size_t n) override { memset(o, 0, n / 2); throw std::runtime_error("source"); } };
int main(){
    sm9::SM9SignMasterPrivateKey<sm3::SM3> m(Bytes(32, 0x55).data()); Bad b; unsigned char o[32];
    try { m.gen_priv(b); } catch (const std::exception&) {}
    m.get_priv(o);
    if (memcmp(o, Bytes(32, 0x55).data(), 32)) { printf("the key changed although the source failed\n"); return 1; }
    return 0;
}
'''
