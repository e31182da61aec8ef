prop="C36"; mods="number sm2 sm3 asn1 memory_utils"; flags="OPT"; pre=""; cf="-O1 -fsanitize=address"; lf="-fsanitize=address"
needs="an SM2 operation in the destructor of a global object that is older than the first use of the library"
breaks="the generator is kept in a container that is destroyed at exit and used afterwards"
edits=[("src/sm2/sm2p256v1.cpp","""    sm2_ec_a G;
    sm2_fp_from_bytes(G[0], SM2_CURVE_GX);
    sm2_fp_from_bytes(G[1], SM2_CURVE_GY);
    sm2_ec_j_mul_a(R, k, G);
""","""    static const std::vector<sm2_ec_t> G = [] {
        std::vector<sm2_ec_t> t(1);
        sm2_fp_from_bytes(t[0].a[0], SM2_CURVE_GX);
        sm2_fp_from_bytes(t[0].a[1], SM2_CURVE_GY);
        return t;
    }();
    sm2_ec_j_mul_a(R, k, G[0].a);
"""),("src/sm2/sm2p256v1.cpp","#include <cstring>\n","#include <cstring>\n#include <vector>\n")]
demo=r'''
#include <gmlib/sm2/sm2.h>
#include <gmlib/sm3/sm3.h>
#include <cstdio>
#include <cstring>
unsigned char now[64], k[32] = {5};
struct Late { ~Late(){ unsigned char t[64]; sm2::SM2PrivateKey<sm3::SM3> p(k); p.fetch_pub().get_pub(t, t + 32); if (memcmp(t, now, 64)) _Exit(1); } };
Late l;
int main(){ sm2::SM2PrivateKey<sm3::SM3> p(k); p.fetch_pub().get_pub(now, now + 32); return 0; }
'''
