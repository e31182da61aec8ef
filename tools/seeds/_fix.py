# a hash with a chosen digest and a random source with chosen output, for demonstrations
FIX = r'''
#include <gmlib/sm2/sm2.h>
#include <gmlib/sm3/sm3.h>
#include <cstdio>
#include <cstring>
#include <vector>
#include <functional>
typedef std::vector<unsigned char> Bytes;
static std::function<bool(const Bytes&, unsigned char*)> HOOK;
struct FixHash {
    static constexpr std::size_t BLOCK_SIZE = 64, DIGEST_SIZE = 32;
    Bytes m;
    void reset() { m.clear(); }
    void update(const std::uint8_t* p, std::size_t n) { m.insert(m.end(), p, p + n); }
    void do_final(std::uint8_t* d, const std::uint8_t* p = nullptr, std::size_t n = 0) {
        if (n) update(p, n);
        if (HOOK && HOOK(m, d)) return;
        sm3::SM3 h; h.update(m.data(), m.size()); h.do_final(d);
    }
};
struct ListRng : rng::Rng {
    std::vector<Bytes> q; std::size_t i = 0;
    const char* name() const override { return "list"; }
    void gen(void* o, std::size_t n) override { unsigned char* b = (unsigned char*)o; for (std::size_t k = 0; k < n; k++) b[k] = q[i][k]; if (i + 1 < q.size()) i++; else used_all = true; }
    bool used_all = false;
};
using namespace sm2::internal;
static Bytes num(unsigned v) { Bytes b(32); b[31] = v; b[30] = v >> 8; return b; }
'''
