prop="C22"; mods="number sm2 sm3 asn1 memory_utils"; flags="OPT"
needs="a ciphertext whose x and y coordinates differ in their top bits"
breaks="the announced size counts the x coordinate twice, so it is one octet off for half of all ciphertexts"
edits=[("src/sm2/sm2p256v1_asn1.cpp","    return asn1::asn1_encode_sequence_outl(\n        asn1::asn1_encode_integer_outl(cipher->XCoordinate, 32) +\n        asn1::asn1_encode_integer_outl(cipher->YCoordinate, 32) +","    return asn1::asn1_encode_sequence_outl(\n        asn1::asn1_encode_integer_outl(cipher->XCoordinate, 32) * 2 +")]
demo=r'''
#include <gmlib/sm2/internal/sm2_asn1.h>
#include <cstdio>
#include <cstring>
using namespace sm2::internal;
int main(){
    unsigned char x[32], y[32], h[32] = {1}, c[5] = {2}, o[200]; memset(x, 0x11, 32); memset(y, 0xee, 32);
    ASN1_SM2Cipher s; s.XCoordinate = x; s.YCoordinate = y; s.HASH.value = h; s.HASH.length = 32; s.CipherText.value = c; s.CipherText.length = 5;
    size_t l; sm2_cipher_asn1_encode(o, &l, &s);
    if (l != sm2_cipher_asn1_encode_outl(&s)) { printf("announced %zu, written %zu\n", sm2_cipher_asn1_encode_outl(&s), l); return 1; }
    return 0;
}
'''
