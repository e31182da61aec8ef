prop="C36"; mods=""; flags="SIMD"
needs="a process that draws from the hardware generator, forks, and draws in both processes"
breaks="hardware words are taken from a pool kept in memory, so parent and child receive the same values"
edits=[("include/gmlib/rng/hardware_rng/rdrand64_rng.h","""    void gen(void *out, std::size_t len) override
    {
        std::uint8_t *out_u8 = (std::uint8_t *)out;
        while (len >= 8)
""","""    void gen(void *out, std::size_t len) override
    {
        std::uint8_t *out_u8 = (std::uint8_t *)out;
        // the instruction is slow: words left over from a short request are kept
        if (len >= 8 && spare_ != 0)
        {
            std::memcpy(out_u8, &spare_, 8);
            spare_ = 0, out_u8 += 8, len -= 8;
        }
        while (len >= 8)
"""),("include/gmlib/rng/hardware_rng/rdrand64_rng.h","""            std::uint64_t val;
            if (rdrand64_retry(RDRAND_RETRIES, &val) != 1)
            {
                throw std::runtime_error("Err in call _rdrand64_step");
            }
            while""","""            std::uint64_t val;
            if (rdrand64_retry(RDRAND_RETRIES, &val) != 1 || rdrand64_retry(RDRAND_RETRIES, &spare_) != 1)
            {
                throw std::runtime_error("Err in call _rdrand64_step");
            }
            while"""),("include/gmlib/rng/hardware_rng/rdrand64_rng.h","""class RdrandRng_64 : public Rng
{
public:
""","""class RdrandRng_64 : public Rng
{
    std::uint64_t spare_ = 0;

public:
"""),("include/gmlib/rng/hardware_rng/rdrand64_rng.h","#include <gmlib/rng/rng.h>\n","#include <gmlib/rng/rng.h>\n#include <cstring>\n")]
demo=r'''
#include <gmlib/rng/hardware_rng/rdrand64_rng.h>
#include <cstdio>
#include <cstring>
#include <sys/wait.h>
#include <unistd.h>
int main(){
    rng::hardware_rng::RdrandRng_64<> g; unsigned char a[24], b[24], w[13]; int fd[2];
    for (int i = 0; i < 30; i++) {
        g.gen(w, 13); if (pipe(fd)) return 2;
        if (fork() == 0) { g.gen(b, 24); _exit(write(fd[1], b, 24) != 24); }
        g.gen(a, 24); if (read(fd[0], b, 24) != 24) return 2; wait(nullptr); close(fd[0]); close(fd[1]);
        if (!memcmp(a, b, 8)) { puts("parent and child draw the same value"); return 1; }
    }
    return 0;
}
'''
