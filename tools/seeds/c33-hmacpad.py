prop="C33"; mods="sm3"; flags="OPT"; cf="-O0"
needs="an HMAC key longer than one block set on an object that lies on dirty memory or already held a key"
breaks="the padding of a hashed key is not cleared, so the MAC depends on what the object's memory held"
edits=[("include/gmlib/hash_lib/hmac.h","        h_.reset();\n        std::memset(K_, 0, Hash::BLOCK_SIZE);\n        if (key_len > Hash::BLOCK_SIZE)\n        {","        h_.reset();\n        if (key_len <= Hash::BLOCK_SIZE)\n        {\n            std::memset(K_ + key_len, 0, Hash::BLOCK_SIZE - key_len);\n        }\n        if (key_len > Hash::BLOCK_SIZE)\n        {")]
demo=r'''
#include <cstring>
#include <cstdio>
#include <new>
#include <gmlib/sm3/sm3.h>
#include <gmlib/hash_lib/hmac.h>
int main(){
    typedef hash_lib::HMac<sm3::SM3> M; unsigned char key[100] = {1, 2, 3}, a[32], b[32];
    alignas(64) static unsigned char mem[sizeof(M)];
    memset(mem, 0x11, sizeof mem); M* m = new (mem) M(key, 100); m->do_final(a, key, 10);
    memset(mem, 0x99, sizeof mem); m = new (mem) M(key, 100); m->do_final(b, key, 10);
    if (memcmp(a, b, 32)) { printf("the MAC depends on old memory\n"); return 1; }
    return 0;
}
'''
