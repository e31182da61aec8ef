prop="C21"; mods="asn1"; flags="OPT"
needs="an INTEGER padded with superfluous 0xff octets"
breaks="such an integer is decoded instead of refused"
edits=[("src/asn1/asn1.cpp","        if (tlv.value[0] == 0xff && (tlv.value[1] & 0x80) == 0x80)","        if (tlv.value[0] == 0xff && tlv.value[1] == 0x80)")]
demo=r'''
#include <gmlib/asn1/asn1.h>
#include <cstdio>
int main(){
    unsigned char o[] = {2, 2, 0xff, 0xfe}; size_t n, r; const std::uint8_t* p;
    if (!asn1::asn1_decode_integer_value(&p, &n, &r, o, sizeof o)) { printf("padded integer decoded\n"); return 1; }
    return 0;
}
'''
