prop="C20"; mods="asn1"; flags="OPT"
needs="a bit string whose number of bits is not a multiple of eight"
breaks="the number of unused bits is written as the number of used bits of the last octet"
edits=[("src/asn1/asn1.cpp","    *out = (8 - data_bits % 8) % 8;","    *out = data_bits % 8;")]
demo=r'''
#include <gmlib/asn1/asn1.h>
#include <cstdio>
int main(){
    unsigned char d[2] = {0xff, 0x80}, o[16]; size_t l;
    asn1::asn1_encode_bit_string_tlv(o, &l, d, 2, 9);
    if (o[2] != 7) { printf("%d unused bits for 9 bits in 2 octets\n", o[2]); return 1; }
    return 0;
}
'''
