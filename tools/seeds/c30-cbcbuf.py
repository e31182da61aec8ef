prop="C30"; mods="memory_utils sm4"; flags="OPT"
needs="two threads decrypting with CBC objects of their own at the same time"
breaks="the decrypted batch is kept in a static buffer shared by all objects"
edits=[("include/gmlib/block_cipher_mode/cbc_mode.h","""        constexpr std::size_t REMAIN         = PARALLEL_BYTES - BLOCK_SIZE;

        std::uint8_t buffer[PARALLEL_BYTES], next_iv[BLOCK_SIZE];
""","""        constexpr std::size_t REMAIN         = PARALLEL_BYTES - BLOCK_SIZE;

        static std::uint8_t buffer[PARALLEL_BYTES];
        std::uint8_t        next_iv[BLOCK_SIZE];
""")]
lf="-pthread"
demo=r'''
#include <gmlib/sm4/sm4_mode.h>
#include <atomic>
#include <cstdio>
#include <cstring>
#include <thread>
#include <vector>
int main(){
    std::atomic<bool> bad(false);
    auto f = [&](int id) {
        unsigned char k[16], v[16]; memset(k, id, 16); memset(v, 3 * id, 16);
        std::vector<unsigned char> m(16 * 900), c(m.size() + 16), p(m.size() + 16); memset(m.data(), id, m.size()); std::size_t n, l;
        for (int i = 0; i < 300; i++) {
            sm4::SM4CbcEncryptor e(k, v); e.update(c.data(), &n, m.data(), m.size()); e.do_final(c.data() + n, &l);
            sm4::SM4CbcDecryptor d(k, v); d.update(p.data(), &n, c.data(), m.size()); d.do_final(p.data() + n, &l);
            if (memcmp(p.data(), m.data(), m.size())) { bad = true; return; }
        }
    };
    std::vector<std::thread> t; for (int i = 1; i < 5; i++) t.emplace_back(f, i); for (auto& x : t) x.join();
    if (bad) puts("a thread's plaintext is wrong");
    return bad;
}
'''
