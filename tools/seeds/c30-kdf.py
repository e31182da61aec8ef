from _fix import FIX
prop="C30"; mods="number sm2 sm3 asn1 memory_utils"; flags="OPT"; lf="-pthread"
needs="two threads encrypting or decrypting at the same time"
breaks="the key stream block of SM2 encryption is shared by all threads"
edits=[("include/gmlib/sm2/internal/sm2_alg.h","    std::uint8_t  ct_buf[4], dk[DIGEST_SIZE];\n","    std::uint8_t  ct_buf[4];\n    // keep the key stream off the stack\n    static std::uint8_t dk[DIGEST_SIZE];\n")]
demo=FIX+r'''
#include <thread>
#include <atomic>
int main(){
    std::atomic<int> bad{0};
    auto f = [&](int t) {
        Bytes z(64, t), in(100000), a(100000), b(100000); for (int i = 0; i < 100000; i++) in[i] = i * t;
        for (int i = 0; i < 60; i++) { sm2_kdf_xor<sm3::SM3>(a.data(), in.data(), in.size(), z.data(), 64); sm2_kdf_xor<sm3::SM3>(b.data(), a.data(), in.size(), z.data(), 64); if (b != in) bad++; }
    };
    std::thread x(f, 1), y(f, 2), u(f, 3), v(f, 4); x.join(); y.join(); u.join(); v.join();
    if (bad) { printf("%d wrong results in threads\n", (int)bad); return 1; }
    return 0;
}
'''
