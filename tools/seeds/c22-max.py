prop="C22"; mods="number sm2 sm3 asn1 memory_utils"; flags="OPT"
needs="a ciphertext with both coordinates' top bits set, written into a buffer of the announced maximum size"
breaks="the announced maximum counts the two coordinates as one element of 64 bytes, which is less than they can take"
edits=[("src/sm2/sm2p256v1_asn1.cpp","    return asn1::ASN1_ENCODE_SEQUENCE_MAX_OUTL(\n        asn1::ASN1_ENCODE_INTEGER_MAX_OUTL(32) +             //\n        asn1::ASN1_ENCODE_INTEGER_MAX_OUTL(32) +             //\n        asn1::ASN1_ENCODE_OCTET_STRING_MAX_OUTL(C3_length) + //\n        asn1::ASN1_ENCODE_OCTET_STRING_MAX_OUTL(C2_length));","    return asn1::asn1_encode_sequence_outl(\n        2 * (2 + 32) + //\n        asn1::asn1_encode_octet_string_outl(C3_length) + //\n        asn1::asn1_encode_octet_string_outl(C2_length));")]
demo=r'''
#include <gmlib/sm2/internal/sm2_asn1.h>
#include <cstdio>
#include <cstring>
using namespace sm2::internal;
int main(){
    unsigned char x[32], y[32], h[32] = {1}, c[5] = {2}; memset(x, 0xff, 32); memset(y, 0xee, 32);
    ASN1_SM2Cipher s; s.XCoordinate = x; s.YCoordinate = y; s.HASH.value = h; s.HASH.length = 32; s.CipherText.value = c; s.CipherText.length = 5;
    if (sm2_cipher_asn1_encode_outl(&s) > sm2_cipher_asn1_encode_max_outl(32, 5)) { printf("more than the announced maximum\n"); return 1; }
    return 0;
}
'''
