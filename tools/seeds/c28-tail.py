prop="C28"; flags="SIMD"; mods=""
needs="a hardware source that fails exactly during the last, partial word of a request"
breaks="a failure in the partial last word is retried once and then ignored: the tail bytes are whatever was in the register"
edits=[("include/gmlib/rng/hardware_rng/rdrand64_rng.h","            std::uint64_t val;\n            if (rdrand64_retry(RDRAND_RETRIES, &val) != 1)\n            {\n                throw","            std::uint64_t val = 0;\n            if (rdrand64_retry(RDRAND_RETRIES, &val) != 1 && val == 0 && out_u8 == out)\n            {\n                throw")]
demo=r'''
#include <immintrin.h>
#include <cstdio>
#include <cstring>
static int ok_left;
static int step(unsigned long long* p) { *p = 0; if (ok_left-- > 0) { *p = 0x1122334455667788ull; return 1; } return 0; }
#define _rdrand64_step step
#include <gmlib/rng/rng.h>
#undef _rdrand64_step
#define __builtin_ia32_rdrand64_step(p) step(p)
#define VF 1
static inline int vstep(unsigned long long* p) { return step(p); }
#include <stdexcept>
#define private public
// the library's macro expands to _rdrand64_step((unsigned long long*)(p)); shadow the intrinsic in its namespace
namespace rng { namespace hardware_rng { static inline int _rdrand64_step(unsigned long long* p) { return vstep(p); } } }
#include <gmlib/rng/hardware_rng/rdrand64_rng.h>
int main(){
    for (int ok = 0; ok < 3; ok++) for (int n = 1; n < 24; n++) {
        unsigned char b[32]; ok_left = ok; rng::hardware_rng::RdrandRng_64<3> g; bool thrown = false;
        try { g.gen(b, n); } catch (const std::exception&) { thrown = true; }
        if (thrown != (ok < (n + 7) / 8)) { printf("length %d with %d good words: %s\n", n, ok, thrown ? "raised" : "not raised"); return 1; }
    }
    return 0;
}
'''
