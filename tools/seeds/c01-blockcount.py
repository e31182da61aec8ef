prop="C01"; mods="sm3"; cf="-O2"
needs="a single update of 512 MiB or more (2^23 blocks), in the build with the optimised SM3"
breaks="the bit count of the processed blocks is computed modulo 2^32, so the length padding of the digest is wrong"
edits=[("src/sm3/sm3_yang15.cpp","    std::uint64_t nxt_bits = block_num * 512 + ctx->data_bits;","    std::uint32_t add_bits = (std::uint32_t)block_num * 512;\n    std::uint64_t nxt_bits = add_bits + ctx->data_bits;")]
demo=r'''
#include <gmlib/sm3/sm3.h>
#include <sys/mman.h>
#include <unistd.h>
#include <cstdio>
#include <cstring>
int main(){
    // 512 MiB + 5 of data, backed by one megabyte mapped again and again
    const size_t M = 1 << 20, N = 512; int fd = memfd_create("d", 0); if (fd < 0 || ftruncate(fd, M)) return 0;
    unsigned char* b = (unsigned char*)mmap(0, (N + 1) * M, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (b == MAP_FAILED) return 0;
    for (size_t i = 0; i <= N; i++) if (mmap(b + i * M, M, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) return 0;
    for (size_t i = 0; i < M; i++) b[i] = (unsigned char)(i * 7 + (i >> 8));
    unsigned char d1[32], d2[32]; sm3::SM3 x, y;
    x.update(b, N * M); x.do_final(d1, b, 5);
    for (size_t i = 0; i < N; i++) y.update(b + i * M, M);
    y.do_final(d2, b, 5);
    if (memcmp(d1, d2, 32)) { puts("one update and many updates give different digests"); return 1; }
    return 0;
}
'''
