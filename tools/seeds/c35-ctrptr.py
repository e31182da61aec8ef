prop="C35"; mods="sm4 aes ghash memory_utils"; flags="OPT"
needs="a CTR object copied in the middle of a message, the original then used, re-keyed or destroyed before the copy"
breaks="the copy advances the original's counter instead of its own"
edits=[("include/gmlib/block_cipher_mode/ctr_mode.h","    std::uint8_t counter_[Cipher::BLOCK_SIZE];\n","    std::uint8_t  iv_[Cipher::BLOCK_SIZE];\n    std::uint8_t* counter_ = iv_; // updated in place\n")]
demo=r'''
#include <gmlib/sm4/sm4_mode.h>
#include <cstdio>
#include <cstring>
int main(){
    unsigned char k[16] = {1}, iv[16] = {2}, m[64] = {3}, a[64], b[64], w[96]; size_t l, n;
    sm4::SM4CtrEncryptor f(k, iv); f.update(w, &l, m, 32); f.update(w + 32, &n, m, 32);
    sm4::SM4CtrEncryptor* e = new sm4::SM4CtrEncryptor(); e->init(k, iv); e->update(a, &l, m, 32);
    sm4::SM4CtrEncryptor c = *e; e->update(b, &l, m, 32);
    c.update(b, &l, m, 32);
    if (memcmp(b, w + 32, 32)) { printf("the copy went on from elsewhere\n"); return 1; }
    return 0;
}
'''
