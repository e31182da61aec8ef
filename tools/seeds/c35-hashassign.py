prop="C35"; mods="sm3"; flags="OPT"
needs="a hash object at a block boundary assigned over one that holds part of a block"
breaks="the destination keeps its own partial block"
edits=[("include/gmlib/hash_lib/hash.h","    Hash() noexcept : buf_size_(0)\n    {\n    }\n","    Hash() noexcept\n    {\n        buf_size_ = 0;\n    }\n\n    Hash(const Hash& other) noexcept : buf_size_(0)\n    {\n        *this = other;\n    }\n\n    Hash& operator=(const Hash& other) noexcept\n    {\n        if (other.buf_size_ && this != &other)\n        {\n            std::memcpy(buf_, other.buf_, other.buf_size_);\n            buf_size_ = other.buf_size_;\n        }\n        return *this;\n    }\n")]
demo=r'''
#include <gmlib/sm3/sm3.h>
#include <cstdio>
#include <cstring>
int main(){
    unsigned char m[64] = {3}, a[32], b[32];
    sm3::SM3 f; f.update(m, 64); f.do_final(a);
    sm3::SM3 g, h; g.update(m, 64); h.update(m, 5); h = g; h.do_final(b);
    if (memcmp(a, b, 32)) { printf("assigned object differs from the original\n"); return 1; }
    return 0;
}
'''
