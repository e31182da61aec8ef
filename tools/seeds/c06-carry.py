prop="C06"; mods="sm4 aes memory_utils"; flags="OPT"
needs="a CTR counter whose low 96 bits are all ones at some block"
breaks="the increment stops carrying at the top 32-bit word, so the key stream after the wrap is wrong"
edits=[("include/gmlib/block_cipher_mode/internal/ctr_inc.h","    tmp = memory_utils::load32_be(in + 4) + (tmp >> 32);\n    memory_utils::store32_be(out + 4, tmp & UINT32_MAX);\n    tmp = memory_utils::load32_be(in + 0) + (tmp >> 32);\n    memory_utils::store32_be(out + 0, tmp & UINT32_MAX);","    tmp = memory_utils::load32_be(in + 4) + (tmp >> 32);\n    memory_utils::store32_be(out + 4, (std::uint32_t)tmp);\n    std::uint32_t top = memory_utils::load32_be(in + 0);\n    memory_utils::store32_be(out + 0, top);")]
demo=r'''
#include <gmlib/sm4/sm4_mode.h>
#include <cstdio>
#include <cstring>
int main(){
    unsigned char k[16] = {1}, iv[16], in[48] = {0}, a[64], b[16]; size_t l;
    memset(iv, 0xff, 16); iv[0] = 7;
    sm4::SM4CtrEncryptor e(k, iv); e.update(a, &l, in, 48);
    memset(iv, 0, 16); iv[0] = 8; sm4::SM4 s(k, 1); s.encrypt_block(b, iv);
    if (memcmp(a + 16, b, 16)) { printf("second block does not use the incremented counter\n"); return 1; }
    return 0;
}
'''
