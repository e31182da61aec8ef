// Reference GHASH / CTR / GCM straight from SP 800-38A/D, over a raw block
// cipher taken from OpenSSL's ECB.
#pragma once
#include "ossl.h"
namespace gcmref {
using vf::Bytes;
using vf::u128;
using vf::u64;
using vf::u8;
// bit 0 of the specification = most significant bit of byte 0
inline u128 load(const u8* p)
{
    u128 x = 0;
    for (int i = 0; i < 16; i++) x = x << 8 | p[i];
    return x;
}
inline void store(u8* p, u128 x)
{
    for (int i = 15; i >= 0; i--) p[i] = (u8)x, x >>= 8;
}
inline u128 mul(u128 x, u128 y)
{
    const u128 R = (u128)0xe1 << 120;
    u128       z = 0, v = y;
    for (int i = 127; i >= 0; i--)
    {
        z ^= v & (u128)(-(__int128)((x >> i) & 1));
        v = (v >> 1) ^ (R & (u128)(-(__int128)(v & 1)));
    }
    return z;
}
inline u128 inv(u128 x) // x^(2^128-2)
{
    u128 r = (u128)1 << 127, s = x;
    for (int i = 0; i < 127; i++)
    {
        s = mul(s, s);
        r = mul(r, s);
    }
    return r;
}
struct Ghash
{
    u128 h, y = 0;
    explicit Ghash(const u8* H) : h(load(H)) {}
    void blocks(const u8* p, size_t n)
    { // zero-pads the tail
        while (n)
        {
            u8     b[16] = {0};
            size_t k     = n < 16 ? n : 16;
            std::memcpy(b, p, k);
            y = mul(y ^ load(b), h);
            p += k, n -= k;
        }
    }
    void lens(u64 a, u64 c) { y = mul(y ^ ((u128)(a * 8) << 64 | (u128)(c * 8)), h); }
    Bytes value() const
    {
        Bytes r(16);
        store(r.data(), y);
        return r;
    }
};
inline Bytes ctr_blocks(const std::string& ecb, const Bytes& key, const Bytes& c0,
                        size_t nblk, bool inc32)
{
    Bytes b(16 * nblk);
    u128  c = load(c0.data());
    for (size_t i = 0; i < nblk; i++)
    {
        store(&b[16 * i], c);
        if (inc32)
            c = (c >> 32 << 32) | (vf::u32)((vf::u32)c + 1);
        else
            c++;
    }
    return ossl::crypt(ecb, key, {}, b, 1);
}
inline Bytes ctr(const std::string& ecb, const Bytes& key, const Bytes& iv,
                 const Bytes& in, bool inc32 = false)
{
    Bytes ks = ctr_blocks(ecb, key, iv, (in.size() + 15) / 16, inc32), o(in.size());
    for (size_t i = 0; i < in.size(); i++) o[i] = in[i] ^ ks[i];
    return o;
}
inline Bytes hkey(const std::string& ecb, const Bytes& key)
{
    return ossl::crypt(ecb, key, {}, Bytes(16, 0), 1);
}
inline Bytes j0(const Bytes& H, const Bytes& iv)
{
    Bytes j(16, 0);
    if (iv.size() == 12)
    {
        std::memcpy(j.data(), iv.data(), 12);
        j[15] = 1;
        return j;
    }
    Ghash g(H.data());
    g.blocks(iv.data(), iv.size());
    g.y = mul(g.y ^ (u128)((u64)iv.size() * 8), g.h);
    return g.value();
}
struct Out
{
    Bytes ct, tag;
};
inline Bytes tag(const std::string& ecb, const Bytes& key, const Bytes& iv,
                 const Bytes& aad, const Bytes& ct)
{
    Bytes H = hkey(ecb, key), J = j0(H, iv);
    Ghash g(H.data());
    g.blocks(aad.data(), aad.size());
    g.blocks(ct.data(), ct.size());
    g.lens(aad.size(), ct.size());
    Bytes e = ossl::crypt(ecb, key, {}, J, 1), t = g.value();
    for (int i = 0; i < 16; i++) t[i] ^= e[i];
    return t;
}
inline Bytes gctr(const std::string& ecb, const Bytes& key, const Bytes& iv, const Bytes& in)
{
    Bytes J = j0(hkey(ecb, key), iv), c(16);
    u128  v = load(J.data());
    store(c.data(), (v >> 32 << 32) | (vf::u32)((vf::u32)v + 1));
    return ctr(ecb, key, c, in, true);
}
inline Out seal(const std::string& ecb, const Bytes& key, const Bytes& iv,
                const Bytes& aad, const Bytes& pt)
{
    Out o;
    o.ct  = gctr(ecb, key, iv, pt);
    o.tag = tag(ecb, key, iv, aad, o.ct);
    return o;
}
// a 16-byte IV whose initial counter block is `want`
inline Bytes iv_for_j0(const Bytes& H, const Bytes& want)
{
    Ghash g(H.data());
    u128  hi = inv(g.h);
    // ((iv*h) ^ len) * h = want
    u128  x = mul(mul(load(want.data()), hi) ^ (u128)128, hi);
    Bytes iv(16);
    store(iv.data(), x);
    return iv;
}
// OpenSSL's own AES-GCM, to check this reference
inline Out ossl_seal(const std::string& name, const Bytes& key, const Bytes& iv,
                     const Bytes& aad, const Bytes& pt)
{
    Out             o;
    EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
    int             l = 0;
    if (EVP_CipherInit_ex2(c, ossl::cipher(name), nullptr, nullptr, 1, nullptr) != 1 ||
        EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_SET_IVLEN, (int)iv.size(), nullptr) != 1 ||
        EVP_CipherInit_ex2(c, nullptr, key.data(), iv.data(), 1, nullptr) != 1)
        ossl::die("gcm");
    if (!aad.empty()) EVP_CipherUpdate(c, nullptr, &l, aad.data(), (int)aad.size());
    o.ct.resize(pt.size() + 16);
    int n = 0;
    if (!pt.empty()) EVP_CipherUpdate(c, o.ct.data(), &n, pt.data(), (int)pt.size());
    EVP_CipherFinal_ex(c, o.ct.data() + n, &l);
    o.ct.resize(pt.size());
    o.tag.resize(16);
    EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_GET_TAG, 16, o.tag.data());
    EVP_CIPHER_CTX_free(c);
    return o;
}
} // namespace gcmref
