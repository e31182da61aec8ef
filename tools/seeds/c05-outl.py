prop="C05"; mods="sm4 aes"; flags="OPT"
needs="an update whose data exactly completes the pending block, and nothing more"
breaks="that update writes a block and reports none; the caller drops it or overwrites it"
edits=[("include/gmlib/block_cipher_mode/block_cipher_mode.h","        if (buf_size_ == 0)\n        {\n            std::size_t block_num = inl / BLOCK_SIZE;\n            std::size_t size      = block_num * BLOCK_SIZE;\n            this->update_blocks(out, in, block_num);\n            out += size, in += size, inl -= size;\n\n            std::memcpy(buf_, in, inl);\n            buf_size_ = inl, *outl = (std::size_t)(out - out_base);\n        }","        if (buf_size_ == 0 && inl != 0)\n        {\n            std::size_t block_num = inl / BLOCK_SIZE;\n            std::size_t size      = block_num * BLOCK_SIZE;\n            this->update_blocks(out, in, block_num);\n            out += size, in += size, inl -= size;\n\n            std::memcpy(buf_, in, inl);\n            buf_size_ = inl, *outl = (std::size_t)(out - out_base);\n        }")]
demo=r'''
#include <gmlib/sm4/sm4_mode.h>
#include <cstdio>
#include <cstring>
int main(){
    unsigned char k[16] = {1}, iv[16] = {2}, in[64], a[96], b[96]; size_t l, n = 0;
    for (int i = 0; i < 64; i++) in[i] = i;
    sm4::SM4CbcEncryptor e(k, iv), f(k, iv);
    e.update(a, &l, in, 64);
    const int ch[] = {5, 11, 16, 20, 12}; int p = 0;
    for (int c : ch) { f.update(b + n, &l, in + p, c); p += c; n += l; }
    f.do_final(b + n, &l); n += l;
    if (n != 64 || memcmp(a, b, 64)) { printf("chunked encryption gives %zu bytes\n", n); return 1; }
    return 0;
}
'''
