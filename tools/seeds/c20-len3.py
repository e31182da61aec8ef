prop="C20"; mods="asn1"; flags="OPT"
needs="contents of 16 MiB or more, or whose length has a zero second-highest octet"
breaks="the length octets are counted by looking for a zero octet, so 65536 and other lengths with an inner zero octet are cut short"
edits=[("src/asn1/asn1.cpp","        while (length)\n        {\n            tmp[tmp_size] = length & 0xFF;","        while (length & 0xFFFFFF)\n        {\n            tmp[tmp_size] = length & 0xFF;")]
demo=r'''
#include <gmlib/asn1/asn1.h>
#include <cstdio>
int main(){
    unsigned char o[16]; size_t l;
    asn1::asn1_encode_sequence_tl(o, &l, 0x01000000);
    if (l != 6 || o[1] != 0x84) { printf("header of 2^24 bytes takes %zu octets\n", l); return 1; }
    return 0;
}
'''
