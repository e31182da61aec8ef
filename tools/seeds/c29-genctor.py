from _fix import FIX
prop="C29"; mods="number sm2 sm3 asn1 memory_utils"; flags="OPT"
needs="a random source that raises on the second draw of an encryption (the first draw gave an all-zero mask)"
breaks="the failure of a repeated draw is swallowed and the ciphertext made from the previous draw is returned"
edits=[("include/gmlib/sm2/sm2.h","    Hash                hash;\n\nretry:\n    // k = random[1, n-1]\n    rng.gen(_k, 32);\n    internal::sm2_bn_from_bytes(k.bn, _k);","    Hash                hash;\n    bool                again = false;\n\nretry:\n    // k = random[1, n-1]\n    try\n    {\n        rng.gen(_k, 32);\n    }\n    catch (...)\n    {\n        if (!again)\n        {\n            throw;\n        }\n        _k[31] ^= 1;\n    }\n    again = true;\n    internal::sm2_bn_from_bytes(k.bn, _k);")]
demo=FIX+r'''
struct Once : rng::Rng { int n = 0; const char* name() const override { return "once"; } void gen(void* o, std::size_t l) override { if (n++) throw std::runtime_error("source"); memset(o, 1, l); } };
int main(){
    sm2::SM2PrivateKey<FixHash> k(num(77).data()); Once r; int calls = 0;
    // the first key stream is all zero, so that another draw is needed
    HOOK = [&](const Bytes& m, unsigned char* d) { if (m.size() != 68 || calls++) return false; memset(d, 0, 32); return true; };
    unsigned char c[300]; std::size_t n = 0; const unsigned char* msg = (const unsigned char*)"sixteen letters.";
    try { k.fetch_pub().encrypt(c, &n, msg, 16, r); } catch (const std::runtime_error&) { return 0; }
    printf("the failing source was not reported\n"); return 1;
}
'''
