prop="C37"; mods="number sm2 sm3 asn1 memory_utils"; flags="OPT"
needs="a random source that raises an error while encrypting, many times"
breaks="the shared point is kept on the heap and not released when the random source throws"
edits=[("include/gmlib/sm2/sm2.h","""    std::uint8_t        _k[32];
    std::uint8_t        x2y2[64];
    Hash                hash;

retry:""","""    std::uint8_t        _k[32];
    std::uint8_t*       x2y2 = new std::uint8_t[64];
    Hash                hash;

retry:"""),("include/gmlib/sm2/sm2.h","""    hash.update(x2y2 + 32, 32);
    hash.do_final(C3);
""","""    hash.update(x2y2 + 32, 32);
    hash.do_final(C3);
    delete[] x2y2;
""")]
demo=r'''
#include <gmlib/sm2/sm2.h>
#include <gmlib/sm3/sm3.h>
#include <malloc.h>
#include <cstdio>
#include <cstring>
#include <stdexcept>
struct Bad : rng::Rng { const char* name() const noexcept override { return "Bad"; } void gen(void*, std::size_t) override { throw std::runtime_error("busy"); } };
int main(){
    unsigned char d[32] = {1}, out[200]; std::size_t n; d[0] = 0; d[31] = 9;
    sm2::SM2PrivateKey<sm3::SM3> k(d); Bad r; size_t a = 0;
    for (int i = 0; i < 20000; i++) { try { k.fetch_pub().encrypt(out, &n, (const unsigned char*)"abc", 3, r); } catch (const std::exception&) {} if (i == 1000) a = mallinfo2().uordblks; }
    size_t b = mallinfo2().uordblks;
    if (b > a + 100000) { printf("%zu bytes lost\n", b - a); return 1; }
    return 0;
}
'''
