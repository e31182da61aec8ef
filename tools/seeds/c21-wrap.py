prop="C21"; mods="asn1"; flags="OPT"
needs="a length field of nine octets or more whose low 64 bits are small"
breaks="the high octets of such a length are shifted out and the element is taken to be short"
edits=[("src/asn1/asn1.cpp","            if (subsequent_octet_length > sizeof(std::size_t))\n            {\n                return -2; // unsupport\n            }\n            if (inl < 1 + subsequent_octet_length)","            if (subsequent_octet_length == 0x7f)\n            {\n                return -2; // reserved\n            }\n            if (inl < 1 + subsequent_octet_length)")]
demo=r'''
#include <gmlib/asn1/asn1.h>
#include <cstdio>
int main(){
    unsigned char o[] = {4, 0x89, 1, 0, 0, 0, 0, 0, 0, 0, 2, 7, 7}; size_t n, r; const std::uint8_t* p;
    if (!asn1::asn1_decode_octet_string_value(&p, &n, &r, o, sizeof o)) { printf("2^64+2 octets decoded as %zu\n", n); return 1; }
    return 0;
}
'''
