prop="C36"; mods="number sm2 sm3 asn1 memory_utils"; flags="OPT"
needs="an SM2 operation performed by the constructor of a global object, before the library's own constants are initialised"
breaks="a constant of the SM2 group is computed by code that runs at program start instead of being a compile-time constant; earlier uses see zero"
edits=[("src/sm2/sm2p256v1.cpp","static const auto N_SUB2    = number::mpz_set_epi8(N_SUB2_DATA);\n","""static auto n_minus(std::uint32_t k)
{
    auto t = number::mpz_set_epi8(N_DATA);
    number::uint256_sub_borrow_uint32(t.v, N.v, k);
    return t;
}
static const auto N_SUB2    = n_minus(2);
""")]
demo=r'''
#include <gmlib/sm2/sm2.h>
#include <gmlib/sm3/sm3.h>
#include <cstdio>
#include <cstring>
struct Zero : rng::Rng { const char* name() const override { return "z"; } void gen(void* p, std::size_t n) override { memset(p, 9, n); } };
struct Early { unsigned char s[64]; Early(){ unsigned char k[32] = {5}; Zero z; sm2::SM2PrivateKey<sm3::SM3> p(k); p.sign(s, k, 32, z); } };
__attribute__((init_priority(101))) Early e;
int main(){
    Early f;
    if (memcmp(e.s, f.s, 64)) { puts("the signature made before main differs"); return 1; }
    return 0;
}
'''
