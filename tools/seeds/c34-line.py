prop="C34"; mods="asn1"; flags="OPT"
needs="a primitive value whose length is an exact multiple of eight above eight"
breaks="the last full line of such a value is followed directly by the next element"
edits=[("src/asn1/asn1_dump.cpp","                if (i % 8 == 7) printf(\"\\n\");\n            }\n            if (tlv.length % 8 != 0) printf(\"\\n\");","                if (i % 8 == 7 && i + 1 != tlv.length) printf(\"\\n\");\n            }\n            if (tlv.length % 8 != 0 || tlv.length == 8) printf(\"\\n\");")]
demo=r'''
#include <gmlib/asn1/asn1_dump.h>
#include <cstdint>
#include <cstdio>
#include <cstring>
int main(){
    unsigned char b[18] = {4, 16};
    static char buf[4096] = {}; std::setvbuf(stdout, buf, _IOFBF, sizeof buf);
    asn1::asn1_dump(b, 18);
    std::size_t n = strlen(buf); if (!n || buf[n - 1] != '\n') { std::fprintf(stderr, "the last line is not ended\n"); return 1; }
    return 0;
}
'''
