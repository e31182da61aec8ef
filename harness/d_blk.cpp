// C03 SM4 block cipher, C04 AES block cipher
#include "ossl.h"
#include <gmlib/aes/aes.h>
#include <gmlib/sm4/sm4.h>
using namespace vf;
typedef block_cipher_mode::BlockCipher BC;

template <class C>
static void cls(Ctx& c, const char* ref, size_t klen, size_t maxblk)
{
    Bytes key = c.r.ebytes(klen);
    size_t n  = c.idx < 80 ? c.idx : c.r.chance(1, 20) ? c.r.below(maxblk) : c.r.below(50);
    Bytes  in = c.r.ebytes(16 * n);
    c.in(key), c.in(in);
    Bytes  enc = ossl::crypt(ref, key, {}, in, 1);
    size_t ko  = c.r.below(9), io = c.r.below(17), oo = c.r.below(17);
    Buf    kb(key.data(), klen, ko), ib(in.data(), in.size(), io);
    C      e, d;
    if (c.r.chance(1, 2))
    { // previous key must leave nothing behind
        Bytes k0 = c.r.renew(key, c.r.bytes(klen));
        e.set_key(k0.data(), (int)c.r.below(2));
        d.set_key(k0.data(), (int)c.r.below(2));
        c.tag("rekeyed");
    }
    e.set_key(kb, BC::ENCRYPTION);
    d.set_key(kb, BC::DECRYPTION);
    if (std::memcmp(kb.p(), key.data(), klen) != 0) c.fail("input-modified", "%s changed its key", ref);
    kb.drop();
    c.tag(fmt("blocks%%16=%zu", n % 16));
    {
        Buf o(16 * n, oo);
        e.encrypt_blocks(o, ib, n);
        c.eq("encrypt-blocks", o.p(), enc.data(), 16 * n,
             fmt("%s encryption of %zu blocks", ref, n));
        if (!o.ok()) c.fail("overwrite", "%s wrote outside %zu blocks", ref, n);
        Buf q(16 * n, io);
        d.decrypt_blocks(q, o, n);
        c.eq("decrypt-blocks", q.p(), in.data(), 16 * n,
             fmt("%s decryption of %zu blocks", ref, n));
        if (!q.ok()) c.fail("overwrite", "%s wrote outside %zu blocks", ref, n);
        if (n && std::memcmp(ib.p(), in.data(), in.size()) != 0)
            c.fail("input-modified", "%s changed its input", ref);
    }
    { // in place
        Buf o(in.data(), in.size(), io);
        e.encrypt_blocks(o, o, n);
        c.eq("in-place", o.p(), enc.data(), 16 * n,
             fmt("%s in-place encryption of %zu blocks", ref, n));
        d.decrypt_blocks(o, o, n);
        c.eq("in-place", o.p(), in.data(), 16 * n,
             fmt("%s in-place decryption of %zu blocks", ref, n));
    }
    // each block on its own, through the base class, sometimes in place
    BC* be = &e;
    BC* bd = &d;
    for (size_t i = 0; i < n && i < 20; i++)
    {
        Buf o(16, c.r.below(5)), x(in.data() + 16 * i, 16, c.r.below(5));
        if (c.r.chance(1, 2))
        {
            be->encrypt_block(o, x);
            c.eq("encrypt-block", o.p(), &enc[16 * i], 16,
                 fmt("%s single block encryption", ref));
            bd->decrypt_block(x, o);
        }
        else
        {
            be->encrypt_block(x, x);
            c.eq("encrypt-block", x.p(), &enc[16 * i], 16,
                 fmt("%s single block in-place encryption", ref));
            bd->decrypt_block(x, x);
        }
        c.eq("decrypt-block", x.p(), &in[16 * i], 16,
             fmt("%s single block decryption", ref));
        if (!x.ok() || !o.ok()) c.fail("overwrite", "%s wrote outside a block", ref);
    }
    c.sample(fmt("%s key %s, %zu blocks", ref, hex(key).c_str(), n));
}

// raw implementation interface
template <class X, class KE, class KD, class E, class D, class EB, class DB>
static void impl(Ctx& c, const char* nm, const char* ref, size_t klen, KE ke,
                 KD kd, E e1, D d1, EB eb, DB db)
{
    Bytes  key = c.r.ebytes(klen);
    size_t n   = c.idx < 70 ? c.idx : c.r.below(70);
    Bytes  in  = c.r.ebytes(16 * n);
    c.in(key), c.in(in), c.in(hash_str(nm));
    Bytes enc = ossl::crypt(ref, key, {}, in, 1);
    Buf   kb(key, c.r.below(5));
    X     xe, xd;
    std::memset((void*)&xe, 0x5a, sizeof xe);
    std::memset((void*)&xd, 0xa5, sizeof xd);
    ke(&xe, kb);
    kd(&xd, kb);
    kb.drop();
    Buf ib(in, c.r.below(17)), o(16 * n, c.r.below(17)), q(16 * n);
    eb(&xe, o, ib, n);
    c.eq(nm, o.p(), enc.data(), 16 * n, fmt("%s encryption of %zu blocks", nm, n));
    db(&xd, q, o, n);
    c.eq(nm, q.p(), in.data(), 16 * n, fmt("%s decryption of %zu blocks", nm, n));
    if (!o.ok() || !q.ok()) c.fail("overwrite", "%s wrote outside", nm);
    if (n)
    {
        Buf a(16), b(16);
        e1(&xe, a, ib.p());
        d1(&xd, b, a.p());
        c.eq(nm, a.p(), enc.data(), 16, fmt("%s one block encryption", nm));
        c.eq(nm, b.p(), in.data(), 16, fmt("%s one block decryption", nm));
    }
    c.tag(std::string("impl ") + nm);
}
#define IMPL(NS, X, P)                                                         \
    impl<NS::X>(c, #NS, ref, klen, NS::P##_enc_key_init, NS::P##_dec_key_init, \
                NS::P##_enc_block, NS::P##_dec_block, NS::P##_enc_blocks,      \
                NS::P##_dec_blocks)

VF_CASE("C03", "class", 20000, 0.15, 20,
        [](Ctx& c) { cls<sm4::SM4>(c, "SM4-ECB", 16, 700); });
VF_CASE("C03", "impl", 10000, 0.2, 20, [](Ctx& c) {
    const char* ref  = "SM4-ECB";
    size_t      klen = 16;
    namespace common = sm4::internal::common;
    IMPL(common, Sm4CTX, sm4);
#ifdef SUPPORT_SM4_LANG18
    namespace lang18 = sm4::internal::lang18;
    IMPL(lang18, Sm4CTX, sm4);
#endif
});
// every value of every byte position of a block passes the S-box paths; key
// walks: one-bit keys and blocks
VF_CASE("C03", "walk", 512, 1, 1, [](Ctx& c) {
    Bytes key(16, 0), in(16 * 33, 0);
    key[(c.idx % 128) / 8] ^= (u8)(0x80 >> (c.idx % 8));
    if (c.idx >= 256)
        for (auto& k : key) k ^= 0xff;
    for (size_t i = 0; i < 33; i++)
        in[16 * i + (i + c.idx) % 16] = (u8)(c.idx * 31 + i * 8);
    c.in(key), c.in(in);
    Bytes    enc = ossl::crypt("SM4-ECB", key, {}, in, 1);
    sm4::SM4 e(key.data(), BC::ENCRYPTION), d(key.data(), BC::DECRYPTION);
    Bytes    o(in.size()), q(in.size());
    e.encrypt_blocks(o.data(), in.data(), 33);
    d.decrypt_blocks(q.data(), o.data(), 33);
    c.eq("walk", o, enc, "SM4 walking key bit");
    c.eq("walk", q, in, "SM4 walking key bit, decryption");
});
VF_CASE("C04", "aes128", 20000, 0.15, 20,
        [](Ctx& c) { cls<aes::AES128>(c, "AES-128-ECB", 16, 300); });
VF_CASE("C04", "aes192", 20000, 0.15, 20,
        [](Ctx& c) { cls<aes::AES192>(c, "AES-192-ECB", 24, 300); });
VF_CASE("C04", "aes256", 20000, 0.15, 20,
        [](Ctx& c) { cls<aes::AES256>(c, "AES-256-ECB", 32, 300); });
VF_CASE("C04", "impl", 8000, 0.2, 20, [](Ctx& c) {
    namespace lut = aes::internal::lut;
    {
        const char* ref  = "AES-128-ECB";
        size_t      klen = 16;
        IMPL(lut, Aes128CTX, aes128);
    }
    {
        const char* ref  = "AES-192-ECB";
        size_t      klen = 24;
        IMPL(lut, Aes192CTX, aes192);
    }
    {
        const char* ref  = "AES-256-ECB";
        size_t      klen = 32;
        IMPL(lut, Aes256CTX, aes256);
    }
#if defined(CPU_FLAG_AES)
    namespace aesni = aes::internal::aesni;
    {
        const char* ref  = "AES-128-ECB";
        size_t      klen = 16;
        IMPL(aesni, Aes128CTX, aes128);
    }
    {
        const char* ref  = "AES-192-ECB";
        size_t      klen = 24;
        IMPL(aesni, Aes192CTX, aes192);
    }
    {
        const char* ref  = "AES-256-ECB";
        size_t      klen = 32;
        IMPL(aesni, Aes256CTX, aes256);
    }
#endif
});
VF_CASE("C04", "walk", 512, 1, 1, [](Ctx& c) {
    for (int k = 0; k < 3; k++)
    {
        size_t      kl  = 16 + 8 * k;
        const char* ref = k == 0 ? "AES-128-ECB" : k == 1 ? "AES-192-ECB" : "AES-256-ECB";
        Bytes       key(kl, (u8)(c.idx >= 256 ? 0xff : 0)), in(16 * 32, 0);
        size_t      bit = c.idx % (kl * 8);
        key[bit / 8] ^= (u8)(0x80 >> (bit % 8));
        for (size_t i = 0; i < 32; i++)
            in[16 * i + (i + c.idx) % 16] = (u8)(c.idx * 31 + i * 8);
        c.in(key), c.in(in);
        Bytes enc = ossl::crypt(ref, key, {}, in, 1), o(in.size()), q(in.size());
        Buf   kb(key);
        if (k == 0)
        {
            aes::AES128 e(kb, BC::ENCRYPTION), d(kb, BC::DECRYPTION);
            e.encrypt_blocks(o.data(), in.data(), 32), d.decrypt_blocks(q.data(), o.data(), 32);
        }
        else if (k == 1)
        {
            aes::AES192 e(kb, BC::ENCRYPTION), d(kb, BC::DECRYPTION);
            e.encrypt_blocks(o.data(), in.data(), 32), d.decrypt_blocks(q.data(), o.data(), 32);
        }
        else
        {
            aes::AES256 e(kb, BC::ENCRYPTION), d(kb, BC::DECRYPTION);
            e.encrypt_blocks(o.data(), in.data(), 32), d.decrypt_blocks(q.data(), o.data(), 32);
        }
        c.eq("walk", o, enc, "AES walking key bit");
        c.eq("walk", q, in, "AES walking key bit, decryption");
    }
});
VF_REQ("C03", "rekeyed", "blocks%16=0", "blocks%16=1", "blocks%16=15", "impl common");
VF_REQ("C04", "rekeyed", "blocks%16=0", "blocks%16=1", "blocks%16=15", "impl lut", "impl aesni");
VF_MAIN
