prop="C28"; flags="SIMD"; mods=""
needs="a source that fails exactly as many times in a row as retries are configured"
breaks="one retry fewer than configured is made"
edits=[("include/gmlib/rng/hardware_rng/rdseed64_rng.h","        while (retries)\n","        while (retries > 1)\n")]
demo=r'''
#include <immintrin.h>
#include <cstdio>
#include <stdexcept>
static int fails;
static int vstep(unsigned long long* p) { if (fails-- > 0) { *p = 0; return 0; } *p = 5; return 1; }
#include <gmlib/rng/rng.h>
namespace rng { namespace hardware_rng { static inline int _rdseed64_step(unsigned long long* p) { return vstep(p); } } }
#include <gmlib/rng/hardware_rng/rdseed64_rng.h>
int main(){
    rng::hardware_rng::RdseedRng_64<3> g; unsigned char b[8];
    for (int f = 0; f <= 3; f++) { fails = f; try { g.gen(b, 8); } catch (const std::exception&) { printf("%d failures were reported with 3 retries configured\n", f); return 1; } }
    return 0;
}
'''
