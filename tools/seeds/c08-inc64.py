prop="C08"; mods="sm4 aes ghash memory_utils"; flags="OPT"
needs="an IV (not of 12 bytes) whose initial counter ends in a 32-bit word about to wrap"
breaks="the carry out of the 32-bit counter runs into the next word, so blocks after the wrap are encrypted with the wrong key stream"
edits=[("include/gmlib/block_cipher_mode/internal/gctr_inc.h","    ((std::uint32_t *)out)[2] = ((const std::uint32_t *)in)[2];\n    std::uint32_t tmp         = memory_utils::load32_be(in + 12) + 1;\n    memory_utils::store32_be(out + 12, tmp);","    std::uint64_t tmp         = memory_utils::load64_be(in + 8) + 1;\n    memory_utils::store64_be(out + 8, tmp);")]
demo=r'''
#include <gmlib/block_cipher_mode/internal/gctr_inc.h>
#include <cstdio>
#include <cstring>
int main(){
    unsigned char a[16], b[16]; memset(a, 0xff, 16); a[8] = 3; a[11] = 0x7f;
    block_cipher_mode::internal::gctr_inc(b, a); memset(a + 12, 0, 4);
    if (memcmp(a, b, 16)) { printf("the counter carried past its last word\n"); return 1; }
    return 0;
}
'''
