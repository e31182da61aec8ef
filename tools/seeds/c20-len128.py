prop="C20"; mods="asn1"; flags="OPT"
needs="contents of exactly 128 bytes"
breaks="128 is written as a single length octet, 0x80, which means indefinite length"
edits=[("src/asn1/asn1.cpp","    if (length < 0x80)\n    {\n        *out  = (std::uint8_t)length;","    if (length <= 0x80)\n    {\n        *out  = (std::uint8_t)length;")]
demo=r'''
#include <gmlib/asn1/asn1.h>
#include <cstdio>
int main(){
    unsigned char d[128] = {1}, o[140]; size_t l, n, r; const std::uint8_t* p;
    asn1::asn1_encode_octet_string_tlv(o, &l, d, 128);
    if (asn1::asn1_decode_octet_string_value(&p, &n, &r, o, l) || n != 128 || r != l) { printf("128 bytes do not round-trip\n"); return 1; }
    return 0;
}
'''
