prop="C37"; mods=""; flags="OPT"
needs="many generators made and destroyed in one process"
breaks="every generator opens the device itself and leaves it open"
edits=[("include/gmlib/rng/std_rng.h","""    std::random_device device_;
""","""    std::FILE* device_ = std::fopen("/dev/urandom", "rb");
"""),("include/gmlib/rng/std_rng.h","""        std::uint8_t* out_u8 = (std::uint8_t*)out;
        while (len)
        {
            *out_u8 = (std::uint8_t)device_();
            out_u8 += 1, len -= 1;
        }
""","""        std::uint8_t* out_u8 = (std::uint8_t*)out;
        while (len)
        {
            std::size_t n = device_ ? std::fread(out_u8, 1, len, device_) : 0;
            if (n == 0)
            {
                throw std::runtime_error("no random device");
            }
            out_u8 += n, len -= n;
        }
"""),("include/gmlib/rng/std_rng.h","#include <ctime>\n","#include <ctime>\n#include <cstdio>\n#include <stdexcept>\n")]
demo=r'''
#include <gmlib/rng/std_rng.h>
#include <cstdint>
#include <cstdio>
#include <exception>
#include <sys/resource.h>
int main(){
    rlimit l = {200, 200}; setrlimit(RLIMIT_NOFILE, &l);
    for (int i = 0; i < 1000; i++) try { rng::StdRng g; unsigned char b[8]; g.gen(b, 8); } catch (const std::exception& e) { printf("generator %d: %s\n", i, e.what()); return 1; }
    return 0;
}
'''
