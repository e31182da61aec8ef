prop="C37"; mods="number sm2 sm3 asn1 memory_utils"; flags="OPT"
needs="a random source that throws something of its own while signing"
breaks="an exception of the random source is replaced by another one"
edits=[("include/gmlib/sm2/sm2.h","""retry:
    // k = random[1, n-1]
    rng.gen(_k, 32);
    internal::sm2_bn_from_bytes(k.bn, _k);
    internal::sm2_bn_mod_n_sub1(k.bn);
    internal::sm2_bn_add_uint32(k.bn, k.bn, 1);
    internal::sm2_bn_to_bytes(_k, k.bn);
    // x1,y1""","""retry:
    // k = random[1, n-1]
    try
    {
        rng.gen(_k, 32);
    }
    catch (...)
    {
        throw std::runtime_error("sm2 signature: no random number");
    }
    internal::sm2_bn_from_bytes(k.bn, _k);
    internal::sm2_bn_mod_n_sub1(k.bn);
    internal::sm2_bn_add_uint32(k.bn, k.bn, 1);
    internal::sm2_bn_to_bytes(_k, k.bn);
    // x1,y1""")]
demo=r'''
#include <gmlib/sm2/sm2.h>
#include <gmlib/sm3/sm3.h>
#include <cstdio>
struct Cancelled { int id; };
struct Own : rng::Rng { int n = 0; const char* name() const noexcept override { return "Own"; } void gen(void*, std::size_t) override { throw Cancelled{++n}; } };
int main(){
    unsigned char d[32] = {}, out[64]; d[31] = 9;
    sm2::SM2PrivateKey<sm3::SM3> k(d); Own r;
    for (int i = 1; i < 5; i++)
        try { k.sign(out, (const unsigned char*)"abc", 3, r); return 1; }
        catch (const Cancelled& c) { if (c.id != i) return 1; }
        catch (...) { puts("another exception arrives"); return 1; }
    return 0;
}
'''
