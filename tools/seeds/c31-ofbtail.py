prop="C31"; mods="sm4 aes memory_utils"; flags="OPT"
needs="an OFB message that ends within a block"
breaks="the last step writes a whole block"
edits=[("include/gmlib/block_cipher_mode/ofb_mode.h","        memory_utils::memxor_n(out, in, key_stream, inl);","        memory_utils::memxor<BLOCK_SIZE>(out, in, key_stream);")]
demo=r'''
#include <gmlib/sm4/sm4_mode.h>
#include <cstdio>
#include <cstring>
#include <sys/mman.h>
#include <signal.h>
#include <unistd.h>
static void h(int) { _exit(1); }
int main(){
    signal(SIGSEGV, h); signal(SIGBUS, h);
    unsigned char* p = (unsigned char*)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(p + 4096, 4096, PROT_NONE);
    unsigned char key[16] = {1}, iv[16] = {2}, pt[5] = {3}; std::size_t a;
    sm4::SM4OfbEncryptor e(key, iv);
    e.do_final(p + 4096 - 5, &a, pt, 5);
    return a == 5 ? 0 : 1;
}
'''
