from _fix import FIX
prop="C31"; mods="number sm2 sm3 asn1 memory_utils"; flags="OPT"
needs="SM2 encryption of a text whose length is not a multiple of the digest, at the end of accessible memory"
breaks="the last step reads a whole digest's worth of the plaintext"
edits=[("include/gmlib/sm2/internal/sm2_alg.h","        memory_utils::memxor_n(out, dk, in, inl);","        memory_utils::memxor<DIGEST_SIZE>(dk, dk, in);\n        std::memcpy(out, dk, inl);")]
demo=FIX+r'''
#include <sys/mman.h>
#include <signal.h>
#include <unistd.h>
static void h(int) { _exit(1); }
int main(){
    signal(SIGSEGV, h); signal(SIGBUS, h);
    unsigned char* p = (unsigned char*)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(p + 4096, 4096, PROT_NONE);
    sm2::SM2PrivateKey<sm3::SM3> k(num(77).data()); ListRng r; r.q = {num(5)};
    unsigned char ct[200]; std::size_t n;
    k.encrypt(ct, &n, p + 4096 - 7, 7, r);
    return n == 65 + 32 + 7 ? 0 : 1;
}
'''
