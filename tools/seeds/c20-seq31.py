prop="C20"; mods="asn1"; flags="NONE"
needs="a content length of 2^31 bytes or more"
breaks="the length octets are those of a 32-bit length"
edits=[("src/asn1/asn1.cpp","        std::uint8_t tmp[sizeof(std::size_t)];\n        std::uint8_t tmp_size = 0;\n        while (length)\n        {\n            tmp[tmp_size] = length & 0xFF;\n            length >>= 8;\n            tmp_size += 1;\n        }","        std::uint8_t  tmp[sizeof(std::size_t)];\n        std::uint8_t  tmp_size = 0;\n        std::uint32_t rest     = (std::uint32_t)length;\n        while (rest)\n        {\n            tmp[tmp_size] = rest & 0xFF;\n            rest >>= 8;\n            tmp_size += 1;\n        }")]
demo=r'''
#include <gmlib/asn1/asn1.h>
#include <cstdio>
int main(){
    unsigned char b[16]; std::size_t n = 0;
    asn1::asn1_encode_sequence_tl(b, &n, (std::size_t)0x123456789a);
    if (n != 7 || b[1] != 0x85 || b[2] != 0x12) { printf("%zu header bytes, length octets %02x %02x\n", n, b[1], b[2]); return 1; }
    return 0;
}
'''
