// A hash and a block cipher with unusual sizes, of the kind a user may plug
// into gmlib's templates, with their own textbook modes as reference.
#pragma once
#include "vf.h"
#include <gmlib/block_cipher_mode/block_cipher.h>
#include <gmlib/hash_lib/hash.h>
namespace toy {
using namespace vf;
template <size_t BS, size_t DS>
struct State_
{
    u64  s[(DS + 7) / 8], n;
    void start()
    {
        n = 0;
        for (auto& x : s) x = 0x9e3779b97f4a7c15ull * (++n + DS);
        n = 0;
    }
    void byte(u8 b)
    {
        size_t k = sizeof(s) / 8, i = n % k;
        s[i] = mix(s[i] ^ b) + s[(i + 1) % k];
        n++;
    }
    void end(u8* d)
    {
        u64 len = n;
        for (int i = 0; i < 8; i++) byte((u8)(len >> 8 * i));
        u64 t = 0;
        for (u64 x : s) t = mix(t ^ x);
        for (size_t i = 0; i < DS; i++) t = mix(t + i), d[i] = (u8)(t >> 40);
    }
};
template <size_t BS, size_t DS>
class Hash : public hash_lib::Hash<BS>
{
    State_<BS, DS> st;

public:
    static constexpr std::size_t BLOCK_SIZE = BS, DIGEST_SIZE = DS;
    Hash() { st.start(); }
    void reset()
    {
        this->hash_lib::template Hash<BS>::reset();
        st.start();
    }

private:
    void update_blocks(const std::uint8_t* in, std::size_t n) override
    {
        for (size_t i = 0; i < n * BS; i++) st.byte(in[i]);
    }
    void final_block(std::uint8_t* d, const std::uint8_t* in, std::size_t n) override
    {
        for (size_t i = 0; i < n; i++) st.byte(in[i]);
        st.end(d);
    }
};
template <size_t BS, size_t DS>
Bytes digest(const Bytes& m)
{
    State_<BS, DS> s;
    Bytes          d(DS);
    s.start();
    for (u8 b : m) s.byte(b);
    s.end(d.data());
    return d;
}
template <size_t BS, size_t DS>
Bytes hmac(Bytes k, const Bytes& m)
{
    if (k.size() > BS) k = digest<BS, DS>(k);
    k.resize(BS, 0);
    Bytes a, b;
    for (u8 x : k) a.push_back(x ^ 0x36), b.push_back(x ^ 0x5c);
    a.insert(a.end(), m.begin(), m.end());
    Bytes d = digest<BS, DS>(a);
    b.insert(b.end(), d.begin(), d.end());
    return digest<BS, DS>(b);
}

// invertible; `dir` and the number of blocks per call are watched
template <size_t BS, size_t PN>
class Cipher : public block_cipher_mode::BlockCipher
{
    u8  k[24];
    int dir = -1;

public:
    static constexpr std::size_t BLOCK_SIZE = BS, USER_KEY_LEN = 24, PARALLEL_NUM = PN;
    static u64 misuse;
    static void E(const u8* k, u8* x)
    {
        for (size_t r = 0; r < 3 * BS; r++)
        {
            u8 v = (u8)(x[r % BS] ^ k[r % 24]);
            x[r % BS] = (u8)((u8)(v << 3 | v >> 5) + mix(x[(r + 1) % BS] * 7 + r));
        }
    }
    static void D(const u8* k, u8* x)
    {
        for (size_t r = 3 * BS; r-- > 0;)
        {
            u8 v = (u8)(x[r % BS] - mix(x[(r + 1) % BS] * 7 + r));
            x[r % BS] = (u8)((u8)(v >> 3 | v << 5) ^ k[r % 24]);
        }
    }
    void set_key(const std::uint8_t* u, int enc) override { std::memcpy(k, u, 24), dir = enc; }
    void encrypt_block(std::uint8_t* o, const std::uint8_t* i) const override { encrypt_blocks(o, i, 1); }
    void decrypt_block(std::uint8_t* o, const std::uint8_t* i) const override { decrypt_blocks(o, i, 1); }
    void encrypt_blocks(std::uint8_t* o, const std::uint8_t* i, std::size_t n) const override
    {
        if (dir != ENCRYPTION) misuse++;
        std::memmove(o, i, n * BS);
        for (size_t j = 0; j < n; j++) E(k, o + j * BS);
    }
    void decrypt_blocks(std::uint8_t* o, const std::uint8_t* i, std::size_t n) const override
    {
        if (dir != DECRYPTION) misuse++;
        std::memmove(o, i, n * BS);
        for (size_t j = 0; j < n; j++) D(k, o + j * BS);
    }
};
template <size_t BS, size_t PN>
u64 Cipher<BS, PN>::misuse = 0;

// m: 0 ECB 1 CBC 2 CFB 3 OFB 4 CTR; whole message
template <size_t BS, size_t PN>
Bytes mode(int m, bool enc, const Bytes& k, Bytes iv, const Bytes& in)
{
    typedef Cipher<BS, PN> C;
    Bytes                  out;
    for (size_t p = 0; p < in.size(); p += BS)
    {
        size_t n = std::min(BS, in.size() - p);
        Bytes  b(in.begin() + p, in.begin() + p + n), o;
        if (m == 0) { o = b; enc ? C::E(k.data(), o.data()) : C::D(k.data(), o.data()); }
        else if (m == 1)
        {
            o = b;
            if (enc) for (size_t i = 0; i < BS; i++) o[i] ^= iv[i];
            enc ? C::E(k.data(), o.data()) : C::D(k.data(), o.data());
            if (!enc) for (size_t i = 0; i < BS; i++) o[i] ^= iv[i];
            iv = enc ? o : b;
        }
        else
        {
            Bytes s = iv;
            C::E(k.data(), s.data());
            for (size_t i = 0; i < n; i++) o.push_back(b[i] ^ s[i]);
            if (m == 2) iv = enc ? o : b;
            if (m == 3) iv = s;
            if (m == 4) for (size_t i = BS; i-- > 0 && ++iv[i] == 0;) {}
        }
        out.insert(out.end(), o.begin(), o.end());
    }
    return out;
}
} // namespace toy
