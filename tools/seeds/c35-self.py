prop="C35"; mods="sm4 aes ghash memory_utils"; flags="OPT"
needs="self-assignment of a mode object that holds part of a block"
breaks="the pending bytes are lost"
edits=[("include/gmlib/block_cipher_mode/block_cipher_mode.h","    BlockCipherMode() noexcept : buf_size_(0)\n    {\n    }\n","    BlockCipherMode() noexcept\n    {\n        buf_size_ = 0;\n    }\n\n    BlockCipherMode(const BlockCipherMode& other) noexcept\n    {\n        *this = other;\n    }\n\n    BlockCipherMode& operator=(const BlockCipherMode& other) noexcept\n    {\n        this->BlockCipherMode<BLOCK_SIZE>::reset();\n        std::memcpy(buf_, other.buf_, BLOCK_SIZE);\n        buf_size_ = other.buf_size_;\n        return *this;\n    }\n")]
demo=r'''
#include <gmlib/sm4/sm4_mode.h>
#include <cstdio>
#include <cstring>
int main(){
    unsigned char k[16] = {1}, iv[16] = {2}, m[64] = {3}, w[96], b[96]; size_t l = 0, n = 0;
    sm4::SM4CbcEncryptor f(k, iv), g(k, iv), &h = g; f.update(w, &l, m, 5); f.update(w, &l, m, 27);
    g.update(b, &n, m, 5); g = h; g.update(b, &n, m, 27);
    if (l != n || memcmp(b, w, l)) { printf("%zu and %zu bytes\n", l, n); return 1; }
    return 0;
}
'''
