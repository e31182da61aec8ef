prop="C21"; mods="asn1"; flags="OPT"
needs="a BIT STRING with unused bits but no bits"
breaks="its number of bits wraps around to nearly 2^64"
edits=[("src/asn1/asn1.cpp","    if (tlv.length == 1 && tlv.value[0] != 0)\n    {\n        return -1;\n    }\n    if (!(0 <= tlv.value[0] && tlv.value[0] <= 7))","    const std::uint8_t unused = tlv.value[0];\n    if (unused > 7)")]
demo=r'''
#include <gmlib/asn1/asn1.h>
#include <cstdio>
int main(){
    unsigned char o[] = {3, 1, 5}; size_t n, r, b; const std::uint8_t* p;
    if (!asn1::asn1_decode_bit_string_value(&p, &n, &b, &r, o, sizeof o)) { printf("%zu bits decoded\n", b); return 1; }
    return 0;
}
'''
