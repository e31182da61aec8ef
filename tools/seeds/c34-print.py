prop="C34"; mods="memory_utils"; flags="OPT"
needs="a byte 0x7f or a byte above 0x7f in a partial last line"
breaks="the printable rendering of a partial last line prints control bytes as they are"
edits=[("src/memory_utils/memdump.cpp","            for (std::size_t i = 0; i < size; i++)\n            {\n                if (std::isprint(data[i]))","            for (std::size_t i = 0; i < size; i++)\n            {\n                if (data[i] >= 0x20 && data[i] <= 0x7f)")]
demo_sh=None
demo=r'''
#include <gmlib/memory_utils/memdump.h>
#include <cstdio>
int main(){
    unsigned char b[3] = {'a', 0x7f, 0x80};
    std::fflush(stdout); char buf[4096] = {}; std::setvbuf(stdout, buf, _IOFBF, sizeof buf);
    memory_utils::memdump(b, 3);
    for (int i = 0; i < 4096 && buf[i]; i++) if (buf[i] == 0x7f) { std::fprintf(stderr, "a control byte was printed\n"); return 1; }
    return 0;
}
'''
del demo_sh
