// Self-contained deterministic operations on every part of the library. The
// outputs go to a Sink; nothing is compared here. Used by the monitors that
// compare executions with each other: across threads, builds and memory
// contents.
#pragma once
#include "vf.h"
#include <cstring>
#include <gmlib/aes/aes_mode.h>
#include <gmlib/asn1/asn1.h>
#include <gmlib/ghash/ghash.h>
#include <gmlib/block_cipher_mode/internal/ctr_inc.h>
#include <gmlib/block_cipher_mode/internal/gctr_inc.h>
#include <gmlib/hash_lib/hmac.h>
#include <gmlib/memory_utils/endian.h>
#include <gmlib/memory_utils/memxor.h>
#include <gmlib/number/mont256.h>
#include <gmlib/number/mpz.h>
#include <gmlib/number/uint256.h>
#include <gmlib/sm2/internal/sm2_asn1.h>
#include <gmlib/sm2/sm2.h>
#include <gmlib/sm3/sm3.h>
#include <gmlib/sm4/sm4_mode.h>
#include <gmlib/sm9/sm9.h>
#include <memory>
#include <stdexcept>

namespace ops {
using namespace vf;
namespace bm = block_cipher_mode;

struct Sink
{
    u64         h     = 0;
    u64         bytes = 0;
    bool        bad   = false;
    std::string why;
    bool        keep = false;
    Bytes       log; // outputs in clear, when asked for
    std::function<void()> between; // called between the steps of an operation
    void        out(const void* p, size_t n)
    {
        if (between) between();
        defined(p, n);
        h = hash_bytes(p, n, h ^ 0x77);
        bytes += n;
        if (keep && log.size() < 4096) log.insert(log.end(), (const u8*)p, (const u8*)p + n);
    }
    void out(u64 v)
    {
        out(&v, sizeof v);
    }
    void out(Buf& b, size_t n)
    {
        if (n > b.size())
        {
            flag("reported length exceeds the buffer");
            n = b.size();
        }
        out(b.p(), n);
        chk(b);
    }
    void out(Buf& b) { out(b, b.size()); }
    void chk(Buf& b)
    {
        if (!b.ok()) flag("overrun: bytes outside an output buffer changed");
    }
    void unchanged(Buf& b, const Bytes& v)
    {
        if (b.bytes() != v) flag("input: an input buffer was changed");
        chk(b);
    }
    void flag(const char* w)
    {
        if (!bad) bad = true, why = w;
    }
};

// Called from inside the library (random source, hash): scheduling noise in
// threads, nested operations elsewhere.
inline std::function<void()>& hook()
{
    static thread_local auto* f = new std::function<void()>; // usable after main, too
    return *f;
}
inline bool& in_source() // the hook was called by the random source
{
    static thread_local bool b;
    return b;
}
inline void call_hook()
{
    if (!hook()) return;
    std::function<void()> f;
    f.swap(hook()); // not re-entered
    f();
    if (!hook()) hook().swap(f);
}
struct DetRng : rng::Rng
{
    Rnd         r;
    std::size_t n = 0;
    explicit DetRng(u64 s) : r(mix(s)) {}
    const char* name() const override { return "DetRng"; }
    void        gen(void* out, std::size_t len) override
    {
        struct Mark
        {
            Mark() { in_source() = true; }
            ~Mark() { in_source() = false; }
        };
        {
            Mark m;
            call_hook();
        }
        r.fill((u8*)out, len);
        n += len;
    }
};
struct ReSM3 // SM3 that gives the harness a chance to run in between
{
    static constexpr std::size_t BLOCK_SIZE = sm3::SM3::BLOCK_SIZE, DIGEST_SIZE = sm3::SM3::DIGEST_SIZE;
    sm3::SM3                     h;
    void                         reset() { h.reset(); }
    void                         update(const std::uint8_t* in, std::size_t n)
    {
        h.update(in, n);
        call_hook();
    }
    void do_final(std::uint8_t* d, const std::uint8_t* in = nullptr, std::size_t n = 0)
    {
        call_hook();
        if (n) h.do_final(d, in, n);
        else h.do_final(d);
    }
};
typedef sm2::SM2PrivateKey<ReSM3>          Prv2;
typedef sm2::SM2PublicKey<ReSM3>           Pub2;
typedef sm9::SM9SignMasterPrivateKey<ReSM3> Mst9;
typedef sm9::SM9SignMasterPublicKey<ReSM3>  Pub9;
typedef sm9::SM9SignPrivateKey<ReSM3>       Prv9;

// Objects which are only read, shared by everybody.
struct Shared
{
    Prv2                         k2;
    Pub2                         p2;
    Mst9                         m9;
    Prv9                         u9;
    Pub9                         p9;
    sm4::SM4                     sm4e, sm4d;
    aes::AES128                  aes1;
    aes::AES192                  aes2;
    aes::AES256                  aes3;
    sm3::SM3                     mid;
    hash_lib::HMac<sm3::SM3>     mac;
    ghash::GHash                 gh;
    bm::CtrEncryptor<sm4::SM4>   ctr;
    bm::GcmEncryptor<aes::AES128> gcm;
    Bytes                        id9, iv;
    explicit Shared(u64 seed)
    {
        Rnd    r(seed);
        DetRng g(r.next());
        k2.gen_priv(g);
        Bytes x(64);
        k2.fetch_pub().get_pub(x.data(), x.data() + 32);
        p2.set_pub(x.data(), x.data() + 32);
        m9.gen_priv(g);
        id9 = r.bytes(11);
        u9  = m9.gen_SignPrivateKey(id9.data(), id9.size(), g);
        Bytes y(128);
        m9.fetch_SignPublicKey().get_pub(y.data(), y.data() + 64);
        p9.set_pub(y.data(), y.data() + 64);
        Bytes k = r.bytes(32);
        iv      = r.bytes(16);
        sm4e.set_key(k.data(), 1);
        sm4d.set_key(k.data(), 0);
        aes1.set_key(k.data(), 1);
        aes2.set_key(k.data(), 0);
        aes3.set_key(k.data(), 1);
        Bytes m = r.bytes(100);
        mid.update(m.data(), m.size());
        mac.set_key(k.data(), 32);
        mac.update(m.data(), 33);
        gh.set_key(k.data());
        gh.update(m.data(), 40);
        ctr.init(k.data(), iv.data());
        size_t n;
        Bytes  o(64);
        ctr.update(o.data(), &n, m.data(), 21);
        gcm.init(k.data(), iv.data(), 12, m.data(), 9);
    }
};

inline size_t off(Rnd& r) { return r.below(9); }
inline Bytes  cat2(Bytes a, const Bytes& b)
{
    a.insert(a.end(), b.begin(), b.end());
    return a;
}
inline Bytes num(Rnd& r) // 32-byte numbers, biased to edges
{
    static const char* const edge[] = {
        "FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF",
        "FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123",
        "B640000002A3A6F1D603AB4FF58EC74521F2934B1A7AEEDBE56F9B27E351457D",
        "B640000002A3A6F1D603AB4FF58EC74449F2934B18EA8BEEE56EE19CD69ECF25",
    };
    Bytes b;
    switch (r.below(6))
    {
    case 0: b = unhex(edge[r.below(4)]); b[31] += (u8)r.below(3) - 1; return b;
    case 1: b = Bytes(32, 0); b[31] = (u8)r.below(4); return b;
    default: b = r.ebytes(32); return b;
    }
}

// ---- hashes
inline void op_sm3(Rnd& r, Sink& s, const Shared* sh)
{
    sm3::SM3 own;
    bool     cp = sh && r.chance(1, 2);
    sm3::SM3 h  = cp ? sh->mid : own;
    Bytes    m  = r.ebytes(r.len(400, 64));
    size_t   o  = 0;
    for (size_t k : r.split(m.size(), 64))
    {
        Buf b(m.data() + o, k, off(r));
        h.update(b, k);
        o += k;
    }
    sm3::SM3 h2 = h;
    Buf      d(32, off(r)), d2(32, off(r));
    h.do_final(d);
    Buf t(r.bytes(r.below(100)), off(r));
    h2.do_final(d2, t, t.size());
    s.out(d), s.out(d2);
    h2.reset();
    h2.update(t, t.size());
    h2.do_final(d);
    s.out(d);
}
inline void op_hmac(Rnd& r, Sink& s, const Shared* sh)
{
    hash_lib::HMac<sm3::SM3> h;
    if (sh && r.chance(1, 2))
        h = sh->mac;
    else
    {
        Buf k(r.ebytes(r.len(140, 64)), off(r));
        h.set_key(k, k.size());
    }
    Bytes  m = r.ebytes(r.len(300, 64));
    size_t o = 0;
    for (size_t k : r.split(m.size(), 64))
    {
        Buf b(m.data() + o, k, off(r));
        h.update(b, k);
        o += k;
    }
    Buf d(32, off(r)), t(r.bytes(r.below(70)), 0);
    h.do_final(d, t, t.size());
    s.out(d);
    Buf k(r.ebytes(r.len(140, 64)), off(r));
    h.set_key(k, k.size());
    h.do_final(d, t, t.size());
    s.out(d);
}
inline void op_ghash(Rnd& r, Sink& s, const Shared* sh)
{
    ghash::GHash g;
    size_t pre = 0;
    if (sh && r.chance(1, 2))
        g = sh->gh, pre = 40;
    else
    {
        Buf k(r.ebytes(16), off(r));
        g.set_key(k);
    }
    bool   whole = r.chance(5, 6);
    Bytes  m = r.ebytes(r.below(20) * 16 + (whole ? (16 - pre % 16) % 16 : r.below(16)));
    size_t o = 0;
    for (size_t k : r.split(m.size(), 16))
    {
        Buf b(m.data() + o, k, off(r));
        g.update(b, k);
        o += k;
    }
    auto fin = [&] {
        Buf d(16, off(r)), t(r.bytes(r.below(5) * 16 + (r.chance(1, 8) ? r.below(16) : 0)), 0);
        try
        {
            g.do_final(d, t, t.size());
            s.out(d);
        }
        catch (std::exception&)
        {
            s.out((u64)0xE2);
        }
    };
    fin();
    g.reset();
    fin();
}
// ---- ciphers
template <class C> void blk(Rnd& r, Sink& s, const C& c, bool enc)
{
    size_t n = r.below(4) ? r.below(20) : r.below(70);
    Bytes  m = r.ebytes(16 * n);
    Buf    in(m, off(r)), o(16 * n, off(r));
    if (enc) c.encrypt_blocks(o, in, n);
    else c.decrypt_blocks(o, in, n);
    s.out(o), s.unchanged(in, m);
    Buf i1(r.bytes(16), off(r)), o1(16, off(r));
    if (enc) c.encrypt_block(o1, i1);
    else c.decrypt_block(o1, i1);
    s.out(o1);
    if (enc) c.encrypt_blocks(in, in, n);
    else c.decrypt_blocks(in, in, n);
    s.out(in);
}
template <class C> void blkown(Rnd& r, Sink& s)
{
    Buf  k(r.ebytes(C::USER_KEY_LEN), off(r));
    bool enc = r.chance(1, 2);
    C    c;
    c.set_key(k, enc ? 1 : 0);
    blk(r, s, c, enc);
    C d = c;
    blk(r, s, d, enc);
}
inline void op_block(Rnd& r, Sink& s, const Shared* sh)
{
    switch (r.below(sh ? 9 : 4))
    {
    case 0: return blkown<sm4::SM4>(r, s);
    case 1: return blkown<aes::AES128>(r, s);
    case 2: return blkown<aes::AES192>(r, s);
    case 3: return blkown<aes::AES256>(r, s);
    case 4: return blk(r, s, sh->sm4e, true);
    case 5: return blk(r, s, sh->sm4d, false);
    case 6: return blk(r, s, sh->aes1, true);
    case 7: return blk(r, s, sh->aes2, false);
    default: return blk(r, s, sh->aes3, true);
    }
}
template <class T> bool feed(Rnd& r, Sink& s, T& t, const Bytes& m, Bytes* all = nullptr)
{
    size_t o = 0, got = 0;
    for (size_t k : r.split(m.size(), 16))
    {
        size_t n = 99999;
        Buf    in(m.data() + o, k, off(r)), out(k + 16, off(r));
        t.update(out, &n, in, k);
        s.out(n), s.out(out, n);
        if (n <= k + 16)
        {
            got += n;
            if (all) all->insert(all->end(), out.p(), out.p() + n);
        }
        o += k;
    }
    size_t n = 99999;
    Buf    out(16, off(r));
    try
    {
        t.do_final(out, &n);
    }
    catch (std::exception&)
    {
        s.out((u64)0xE1);
        return false;
    }
    s.out(n), s.out(out, n);
    if (all && n <= 16) all->insert(all->end(), out.p(), out.p() + n);
    return true;
}
template <class E, class D> void ivmode(Rnd& r, Sink& s, size_t kl)
{
    Bytes key = r.ebytes(kl), iv = r.ebytes(16);
    Buf   k(key, off(r)), v(iv, off(r));
    bool  whole = r.chance(3, 4);
    Bytes m     = r.ebytes(whole ? r.below(20) * 16 : r.len(300, 16)), c;
    E     e;
    e.init(k, v);
    feed(r, s, e, m, &c);
    D d;
    d.init(k, v);
    feed(r, s, d, c);
    d.reset(v);
    E e2 = e;
    e2.reset(v);
    feed(r, s, e2, m);
}
template <class C> void ecb(Rnd& r, Sink& s)
{
    Bytes                key = r.ebytes(C::USER_KEY_LEN), c;
    Buf                  k(key, off(r));
    Bytes                m = r.ebytes(r.chance(3, 4) ? r.below(20) * 16 : r.len(300, 16));
    bm::EcbEncryptor<C>  e;
    bm::EcbDecryptor<C>  d;
    e.init(k), d.init(k);
    feed(r, s, e, m, &c), feed(r, s, d, c);
    e.reset();
    feed(r, s, e, m);
}
template <class C> void gcm(Rnd& r, Sink& s)
{
    Bytes               key = r.ebytes(C::USER_KEY_LEN), iv = r.ebytes(r.chance(1, 2) ? 12 : 1 + r.below(60)), aad = r.ebytes(r.len(60, 16)), c;
    Buf                 k(key, off(r)), v(iv, off(r)), a(aad, off(r)), tag(16, off(r));
    Bytes               m = r.ebytes(r.len(300, 16));
    bm::GcmEncryptor<C> e;
    e.init(k, v, v.size(), a, a.size());
    feed(r, s, e, m, &c);
    e.get_tag(tag);
    s.out(tag);
    bm::GcmDecryptor<C> d(k.p(), v.p(), v.size(), a.p(), a.size()), f = d;
    d.set_tag(tag);
    s.out((u64)feed(r, s, d, c));
    tag[r.below(16)] ^= (u8)(1u << r.below(8));
    f.set_tag(tag);
    s.out((u64)feed(r, s, f, c));
}
template <class C> void mode(Rnd& r, Sink& s)
{
    switch (r.below(7))
    {
    case 0: return ecb<C>(r, s);
    case 1: return ivmode<bm::CbcEncryptor<C>, bm::CbcDecryptor<C>>(r, s, C::USER_KEY_LEN);
    case 2: return ivmode<bm::CfbEncryptor<C>, bm::CfbDecryptor<C>>(r, s, C::USER_KEY_LEN);
    case 3: return ivmode<bm::OfbEncryptor<C>, bm::OfbDecryptor<C>>(r, s, C::USER_KEY_LEN);
    case 4: return ivmode<bm::CtrEncryptor<C>, bm::CtrDecryptor<C>>(r, s, C::USER_KEY_LEN);
    default: return gcm<C>(r, s);
    }
}
inline void op_mode(Rnd& r, Sink& s, const Shared* sh)
{
    if (sh && r.chance(1, 6))
    {
        bm::CtrEncryptor<sm4::SM4> c = sh->ctr;
        feed(r, s, c, r.ebytes(r.len(300, 16)));
        bm::GcmEncryptor<aes::AES128> g = sh->gcm;
        feed(r, s, g, r.ebytes(r.len(300, 16)));
        Buf t(16, off(r));
        g.get_tag(t);
        s.out(t);
        return;
    }
    switch (r.below(5))
    {
    case 0: return mode<aes::AES128>(r, s);
    case 1: return mode<aes::AES192>(r, s);
    case 2: return mode<aes::AES256>(r, s);
    default: return mode<sm4::SM4>(r, s);
    }
}
// ---- memory utilities
inline void op_mem(Rnd& r, Sink& s, const Shared*)
{
    namespace mu = memory_utils;
    size_t n     = r.len(700, 64);
    Buf    a(r.bytes(n), off(r)), b(r.bytes(n), off(r)), o(n, off(r));
    mu::memxor_n(o, a, b, n);
    s.out(o);
    mu::memxor_n(a, a, b, n);
    s.out(a);
    mu::memxor<16>(o.size() >= 16 ? o : Buf(16).p(), Buf(r.bytes(16)).p(), Buf(r.bytes(16)).p());
    Buf w(r.bytes(8), off(r)), x(8, off(r));
    s.out((u64)mu::load8_be(w)), s.out((u64)mu::load16_be(w)), s.out((u64)mu::load32_be(w)), s.out((u64)mu::load64_be(w));
    s.out((u64)mu::load8_le(w)), s.out((u64)mu::load16_le(w)), s.out((u64)mu::load32_le(w)), s.out((u64)mu::load64_le(w));
    u64 v = r.next();
    mu::store64_be(x, v), s.out(x);
    mu::store64_le(x, v), s.out(x);
    mu::store32_be(x, (u32)v), mu::store16_le(x.p() + 4, (std::uint16_t)v), mu::store16_be(x.p() + 6, (std::uint16_t)v), s.out(x);
    mu::store32_le(x.p() + 2, (u32)v), mu::store8_be(x, (u8)v), mu::store8_le(x.p() + 7, (u8)v), s.out(x);
    Buf c(r.ebytes(16), off(r)), d(16, off(r));
    bm::internal::ctr_inc<16>(d, c), s.out(d);
    bm::internal::ctr_inc<16>(c, c), s.out(c);
    bm::internal::gctr_inc(d, c), s.out(d);
}
// ---- numbers
#if defined(CPU_FLAG_MOVBE) && defined(CPU_FLAG_BMI2)
typedef std::uint64_t limb;
#else
typedef std::uint32_t limb;
#endif
constexpr size_t NL = 32 / sizeof(limb);
struct Num
{
    Buf b;
    explicit Num(size_t k = 1) : b(32 * k) {}
    operator limb*() { return (limb*)b.p(); }
};
inline void put(Sink& s, Num& n)
{
    Buf o(32);
    number::uint256_to_bytes(o, n);
    s.out(o), s.chk(n.b);
}
inline void putz(Sink& s, Num& n)
{
    Buf o(n.b.size());
    number::mpz_to_bytes(o, n, n.b.size() / sizeof(limb));
    s.out(o), s.chk(n.b);
}
inline int  sgn(int x) { return x < 0 ? -1 : x > 0; }
inline void op_num(Rnd& r, Sink& s, const Shared*)
{
    Num   a, b, q, w(2);
    Bytes xa = num(r), xb = num(r);
    u32   word = r.chance(1, 3) ? (u32)r.below(3) : r.chance(1, 3) ? 0xFFFFFFFFu - (u32)r.below(2) : (u32)r.next();
    number::uint256_from_bytes(a, Buf(xa, off(r)));
    number::uint256_from_bytes(b, Buf(xb, off(r)));
    s.out((u64)number::uint256_add_carry(q, a, b)), put(s, q);
    s.out((u64)number::uint256_sub_borrow(q, a, b)), put(s, q);
    s.out((u64)number::uint256_dbl_carry(q, a)), put(s, q);
    s.out((u64)number::uint256_tpl_carry(q, a)), put(s, q);
    s.out((u64)number::uint256_add_carry_uint32(q, a, word)), put(s, q);
    s.out((u64)number::uint256_sub_borrow_uint32(q, a, word)), put(s, q);
    s.out((u64)number::uint256_mul_carry_uint32(q, a, word)), put(s, q);
    number::uint256_mul(w, a, b), putz(s, w);
    number::uint256_sqr(w, a), putz(s, w);
    s.out((u64)sgn(number::uint256_cmp(a, b)));
    s.out((u64)sgn(number::uint256_cmp_uint32(a, word)));
    s.out((u64)number::uint256_equal(a, b)), s.out((u64)number::uint256_equal_zero(a)), s.out((u64)number::uint256_equal_one(a));
    s.out((u64)number::uint256_bittest(a, (int)r.below(256)));
    number::uint256_set_uint32(q, word), put(s, q);
    { // the modulus has its top bit set, as those the library uses
        xb[0] |= 0x80;
        number::uint256_from_bytes(b, Buf(xb, off(r)));
        size_t n = r.below(70);
        Buf    d(r.ebytes(n), off(r));
        number::uint256_mod(q, d, n, b), put(s, q);
    }
    // numbers of other sizes
    size_t n = NL * (1 + r.below(3)) / (r.chance(1, 2) ? 1 : 2), k = n * sizeof(limb);
    k        = k / 8 * 8;
    n        = k / sizeof(limb);
    Buf x(k), y(k), z(k), zz(2 * k), o(2 * k, off(r));
    number::mpz_from_bytes((limb*)x.p(), Buf(r.ebytes(k), off(r)), n);
    number::mpz_from_bytes((limb*)y.p(), Buf(r.ebytes(k), off(r)), n);
    s.out((u64)number::mpz_add_carry((limb*)z.p(), (limb*)x.p(), (limb*)y.p(), (int)r.below(2), n));
    number::mpz_to_bytes(o, (limb*)z.p(), n), s.out(o, k);
    s.out((u64)number::mpz_sub_borrow((limb*)z.p(), (limb*)x.p(), (limb*)y.p(), -(int)r.below(2), n));
    number::mpz_to_bytes(o, (limb*)z.p(), n), s.out(o, k);
    number::mpz_mul((limb*)zz.p(), (limb*)x.p(), (limb*)y.p(), n);
    number::mpz_to_bytes(o, (limb*)zz.p(), 2 * n), s.out(o, 2 * k);
    s.out((u64)sgn(number::mpz_cmp((limb*)x.p(), (limb*)y.p(), n)));
    s.chk(x), s.chk(y), s.chk(z), s.chk(zz);
}
inline void op_mont(Rnd& r, Sink& s, const Shared*)
{
    static const char* const mod[] = {
        "FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF",
        "FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123",
        "B640000002A3A6F1D603AB4FF58EC74521F2934B1A7AEEDBE56F9B27E351457D",
        "B640000002A3A6F1D603AB4FF58EC74449F2934B18EA8BEEE56EE19CD69ECF25",
        "8000000000000000000000000000000000000000000000000000000000000003",
        "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF43",
    };
    size_t mi = r.below(6);
    Num    p, p2, R, RR, a, b, q, e;
    number::uint256_from_bytes(p, Buf(unhex(mod[mi])));
    number::uint256_sub_borrow_uint32(p2, p, 2);
    Bytes z(33, 0), zz(65, 0);
    z[0] = zz[0] = 1;
    number::uint256_mod(R, Buf(z), 33, p), number::uint256_mod(RR, Buf(zz), 65, p);
    number::Mont256CTX m = {p, p2, R, RR, number::mont_compute_N_(*(limb*)p)};
    Bytes              xa = num(r), xb = num(r);
    number::uint256_mod(a, Buf(xa), 32, p), number::uint256_mod(b, Buf(xb), 32, p);
    Buf o(32, off(r));
    number::uint256_to_bytes(o, a), number::mont256_from_bytes(&m, a, o), put(s, a);
    number::uint256_to_bytes(o, b), number::mont256_from_bytes(&m, b, o), put(s, b);
    number::mont256_add(&m, q, a, b), put(s, q);
    number::mont256_sub(&m, q, a, b), put(s, q);
    number::mont256_mul(&m, q, a, b), put(s, q);
    number::mont256_sqr(&m, q, a), put(s, q);
    number::mont256_dbl(&m, q, a), put(s, q);
    number::mont256_tpl(&m, q, a), put(s, q);
    number::mont256_neg(&m, q, a), put(s, q);
    number::mont256_div2(&m, q, a), put(s, q);
    number::uint256_from_bytes(e, Buf(num(r)));
    number::mont256_pow(&m, q, a, e), put(s, q);
    if (mi != 4 && !number::mont256_equal_zero(&m, a)) number::mont256_inv(&m, q, a), put(s, q);
    number::mont256_to_bytes(&m, o, q), s.out(o);
    s.out((u64)number::mont256_equal(&m, a, b)), s.out((u64)number::mont256_equal_one(&m, a));
    number::mont256_set_one(&m, q), put(s, q);
    number::mont256_set_uint32(&m, q, (u32)r.next()), put(s, q);
    size_t n = r.below(66);
    Bytes  lb = r.ebytes(n);
    number::mont256_from_bytes_ex(&m, q, Buf(lb, off(r)), n), put(s, q);
}
// ---- SM2
template <class F> bool attempt(Sink& s, F f)
{
    try
    {
        f();
        s.out((u64)1);
        return true;
    }
    catch (std::exception&)
    {
        s.out((u64)0);
        return false;
    }
}
inline void mutate(Rnd& r, Bytes& b)
{
    if (b.empty()) return;
    switch (r.below(6))
    {
    case 0: b[r.below(b.size())] ^= (u8)(1u << r.below(8)); break;
    case 1: b.resize(r.below(b.size())); break;
    case 2: { Bytes t = r.bytes(1 + r.below(5)); b.insert(b.end(), t.begin(), t.end()); break; }
    case 3: b[0] = (u8)r.next(); break;
    case 4: { size_t i = r.below(b.size()); for (size_t k = i; k < b.size() && k < i + 32; k++) b[k] = r.chance(1, 2) ? 0xff : 0; break; }
    default: b[r.below(b.size())] = (u8)r.next(); break;
    }
}
inline void opub(Sink& s, const Pub2& p)
{
    Buf x(32), y(32);
    p.get_pub(x, y);
    s.out(x), s.out(y);
}
inline sm2::SM2EcPC pc2(u64 v) { return v == 0 ? sm2::SM2EcPC::UNCOMPRESSED : v == 1 ? sm2::SM2EcPC::COMPRESSED : sm2::SM2EcPC::MIX; }
struct Key2
{
    Prv2        own;
    const Prv2* k;
    const Pub2* p;
    Key2(Rnd& r, Sink& s, const Shared* sh)
    {
        DetRng g(r.next());
        if (sh && r.chance(1, 2))
        {
            k = &sh->k2;
            p = r.chance(1, 2) ? &sh->p2 : &sh->k2.fetch_pub();
            return;
        }
        if (r.chance(1, 2))
            own.gen_priv(g);
        else
        {
            Buf d(num(r), off(r));
            if (!attempt(s, [&] { own.set_priv(d); })) own.gen_priv(g);
        }
        k = &own, p = &own.fetch_pub();
        Buf d(32, off(r));
        own.get_priv(d);
        s.out(d);
        opub(s, own.fetch_pub());
    }
};
inline void op_sm2_sign(Rnd& r, Sink& s, const Shared* sh)
{
    Key2   key(r, s, sh);
    Bytes  m = r.ebytes(r.len(150, 64)), id = r.ebytes(r.below(40));
    Buf    mb(m, off(r)), ib(id, off(r)), sig(64, off(r));
    DetRng g(r.next());
    bool   dfl = r.chance(1, 2);
    if (dfl) key.k->sign(sig, mb, m.size(), g);
    else key.k->sign(sig, mb, m.size(), g, ib, id.size());
    s.out(sig), s.out(g.n), s.unchanged(mb, m);
    auto ver = [&](const u8* q) { return dfl ? key.p->verify(q, mb, m.size()) : key.p->verify(q, mb, m.size(), ib, id.size()); };
    s.out((u64)ver(sig));
    s.out((u64)key.k->verify(sig, mb, m.size(), ib, id.size()));
    Bytes bad = sig.bytes();
    mutate(r, bad);
    bad.resize(64, (u8)r.next());
    Buf bb(bad, off(r));
    s.out((u64)ver(bb));
    Buf h(r.ebytes(64), off(r));
    s.out((u64)ver(h));
}
inline void op_sm2_crypt(Rnd& r, Sink& s, const Shared* sh)
{
    Key2   key(r, s, sh);
    Bytes  m = r.ebytes(r.chance(1, 10) ? 0 : 1 + r.len(120, 32));
    auto   f = pc2(r.below(3));
    Buf    mb(m, off(r));
    size_t cl = Pub2::ciphertext_len(mb, m.size(), f), rep = 99999;
    s.out(cl);
    Buf    c(cl, off(r));
    DetRng g(r.next());
    if (r.chance(1, 2)) key.p->encrypt(c, &rep, mb, m.size(), g, f);
    else key.k->encrypt(c, &rep, mb, m.size(), g, f);
    s.out((u64)rep);
    s.out(c), s.out(g.n), s.unchanged(mb, m);
    auto dec = [&](const Bytes& ct) {
        Buf    cb(ct, off(r));
        size_t pl = 0;
        if (!attempt(s, [&] { pl = Prv2::plaintext_len(cb, ct.size()); })) pl = 0;
        s.out(pl);
        if (pl > 5000) return s.flag("plaintext_len out of range");
        Buf    o(pl, off(r));
        size_t n = 99999;
        if (attempt(s, [&] { key.k->decrypt(o, &n, cb, ct.size()); })) s.out(n), s.out(o, n);
        s.unchanged(cb, ct), s.chk(o);
    };
    dec(c.bytes());
    for (int i = 0; i < 2; i++)
    {
        Bytes b = c.bytes();
        mutate(r, b);
        dec(b);
    }
    Bytes x = r.ebytes(r.below(200));
    if (!x.empty() && r.chance(3, 4)) x[0] = (u8)(2 + r.below(6));
    dec(x);
}
inline void op_sm2_pub(Rnd& r, Sink& s, const Shared* sh)
{
    Key2  key(r, s, sh);
    Bytes xy(64);
    key.p->get_pub(xy.data(), xy.data() + 32);
    Pub2 p;
    for (int i = 0; i < 3; i++)
    {
        Buf x(xy.data(), 32, off(r)), y(xy.data() + 32, 32, off(r));
        if (attempt(s, [&] { p.set_pub(x, y); })) opub(s, p);
        mutate(r, xy);
        xy.resize(64, 0);
        if (r.chance(1, 3)) xy = cat2(num(r), num(r));
    }
    // the point decoder
    Bytes e(1, (u8)r.below(8));
    key.p->get_pub(xy.data(), xy.data() + 32);
    e.insert(e.end(), xy.begin(), xy.begin() + (r.chance(1, 2) ? 32 : 64));
    if (r.chance(1, 2)) mutate(r, e);
    Buf                     eb(e, off(r));
    sm2::internal::sm2_ec_a P;
    size_t                  n  = 99999;
    int                     rc = sm2::internal::sm2_ec_a_from_bytes(P, &n, eb, e.size());
    s.out((u64)(rc != 0));
    if (!rc)
    {
        Buf o(64, off(r));
        sm2::internal::sm2_ec_a_to_bytes04(o, P);
        s.out(n), s.out(o);
    }
}
// ---- ASN.1
inline void octets(Rnd& r, Sink& s, const Bytes& v)
{
    Buf                 b(v, off(r));
    size_t              n = 0, l = 0, k = 0;
    const std::uint8_t* p = nullptr;
    auto                val = [&](int rc) {
        s.out((u64)(rc != 0));
        if (rc) return;
        s.out(n), s.out(l);
        if (l && (p < b.p() || p + l > b.p() + b.size())) return s.flag("decoded value outside the input");
        s.out(p, l);
    };
    asn1::Asn1TLV t;
    int           rc = asn1::asn1_decode_tlv(&t, &n, b, v.size());
    l = t.length, p = t.value;
    if (rc == 0) s.out((u64)t.tag_class), s.out((u64)t.tag_pc), s.out((u64)t.tag_number);
    else l = 0;
    val(rc);
    if (rc == 0) s.out(asn1::asn1_tag_number_name(t.tag_number), std::strlen(asn1::asn1_tag_number_name(t.tag_number)));
    val(asn1::asn1_decode_integer_value(&p, &l, &n, b, v.size()));
    val(asn1::asn1_decode_octet_string_value(&p, &l, &n, b, v.size()));
    rc = asn1::asn1_decode_bit_string_value(&p, &l, &k, &n, b, v.size());
    val(rc);
    if (!rc) s.out(k);
    val(asn1::asn1_decode_sequence_value(&p, &l, &n, b, v.size()));
    val(asn1::asn1_decode_set_value(&p, &l, &n, b, v.size()));
    bool z = false;
    rc     = asn1::asn1_decode_boolean_value(&z, &n, b, v.size());
    s.out((u64)(rc != 0));
    if (!rc) s.out((u64)z), s.out(n);
    rc = asn1::asn1_decode_null_value(&n, b, v.size());
    s.out((u64)(rc != 0));
    if (!rc) s.out(n);
    namespace i2 = sm2::internal;
    auto ptr     = [&](const u8* q, size_t len) {
        if (len && (q < b.p() || q + len > b.p() + b.size())) return s.flag("decoded value outside the input");
        s.out(q, len);
    };
    i2::ASN1_SM2PrivateKey d;
    rc = i2::sm2_private_key_asn1_decode(&d, &n, b, v.size());
    s.out((u64)(rc != 0));
    if (!rc) s.out(n), ptr(d.value, 32);
    i2::ASN1_SM2PublicKey q;
    rc = i2::sm2_public_key_asn1_decode(&q, &n, b, v.size());
    s.out((u64)(rc != 0));
    if (!rc) s.out(n), ptr(q.value, 65);
    i2::ASN1_SM2Signature g;
    rc = i2::sm2_signature_asn1_decode(&g, &n, b, v.size());
    s.out((u64)(rc != 0));
    if (!rc) s.out(n), ptr(g.R, 32), ptr(g.S, 32);
    s.chk(b);
}
inline void op_asn1(Rnd& r, Sink& s, const Shared*)
{
    namespace i2 = sm2::internal;
    Bytes  v = r.ebytes(1 + r.len(300, 32));
    Buf    vb(v, off(r));
    size_t n = 99999, want;
    Bytes  enc;
    auto   done = [&](Buf& o) {
        s.out(n);
        if (n != want) s.flag("length differs from the announced one");
        s.out(o, n);
        enc = o.bytes(std::min(n, o.size()));
    };
    switch (r.below(7))
    {
    case 0: { Buf o(want = asn1::asn1_encode_integer_outl(vb, v.size()), off(r)); asn1::asn1_encode_integer_tlv(o, &n, vb, v.size()); done(o); break; }
    case 1: { Buf o(want = asn1::asn1_encode_octet_string_outl(v.size()), off(r)); asn1::asn1_encode_octet_string_tlv(o, &n, vb, v.size()); done(o); break; }
    case 2: { size_t bits = v.size() * 8 - r.below(8); Buf o(want = asn1::asn1_encode_bit_string_outl(bits), off(r)); asn1::asn1_encode_bit_string_tlv(o, &n, vb, v.size(), bits); done(o); break; }
    case 3: { Buf o(want = asn1::asn1_encode_boolean_outl(), off(r)); asn1::asn1_encode_boolean_tlv(o, &n, r.chance(1, 2)); done(o); break; }
    case 4:
    {
        Bytes                 R = num(r), S = num(r);
        Buf                   rb(R, off(r)), sb(S, off(r));
        i2::ASN1_SM2Signature g = {rb, sb};
        Buf                   o(want = i2::sm2_signature_asn1_encode_outl(&g), off(r));
        i2::sm2_signature_asn1_encode(o, &n, &g);
        done(o);
        break;
    }
    case 5:
    {
        Bytes d = num(r);
        Buf   b(d, off(r));
        i2::ASN1_SM2PrivateKey g = {b};
        Buf o(want = i2::sm2_private_key_asn1_encode_outl(&g), off(r));
        i2::sm2_private_key_asn1_encode_outl(o, &n, &g);
        done(o);
        break;
    }
    default:
    {
        Bytes d = cat2(Bytes(1, 4), cat2(num(r), num(r)));
        Buf   b(d, off(r));
        i2::ASN1_SM2PublicKey g = {b};
        Buf o(want = i2::sm2_public_key_asn1_encode_outl(&g), off(r));
        i2::sm2_public_key_asn1_encode(o, &n, &g);
        done(o);
        break;
    }
    }
    octets(r, s, enc);
    for (int i = 0; i < 3; i++)
    {
        Bytes b = enc;
        mutate(r, b);
        octets(r, s, b);
    }
    octets(r, s, r.ebytes(r.below(20)));
}
// ---- SM9
inline sm9::SM9EcPC pc9(u64 v) { return v == 0 ? sm9::SM9EcPC::UNCOMPRESSED : v == 1 ? sm9::SM9EcPC::COMPRESSED : sm9::SM9EcPC::MIX; }
struct Key9
{
    Mst9        om;
    Prv9        ou;
    const Mst9* m;
    const Prv9* u;
    const Pub9* p;
    Bytes       id;
    Key9(Rnd& r, Sink& s, const Shared* sh)
    {
        DetRng g(r.next());
        if (sh && r.chance(2, 3))
        {
            m = &sh->m9, u = &sh->u9, id = sh->id9;
            switch (r.below(3))
            {
            case 0: p = &sh->p9; break;
            case 1: p = &sh->u9.fetch_pub(); break;
            default: p = &sh->m9.fetch_SignPublicKey();
            }
            if (r.chance(1, 3))
            {
                id = r.ebytes(r.below(20));
                ou = m->gen_SignPrivateKey(Buf(id, off(r)), id.size(), g);
                u  = &ou;
            }
            return;
        }
        if (r.chance(1, 2))
            om.gen_priv(g);
        else
        {
            Buf d(num(r), off(r));
            if (!attempt(s, [&] { om.set_priv(d); })) om.gen_priv(g);
        }
        id = r.ebytes(r.below(20));
        ou = om.gen_SignPrivateKey(Buf(id, off(r)), id.size(), g);
        m = &om, u = &ou, p = &om.fetch_SignPublicKey();
        Buf d(32, off(r));
        om.get_priv(d);
        s.out(d);
        Buf x(64, off(r)), y(64, off(r));
        p->get_pub(x, y);
        s.out(x), s.out(y);
    }
};
inline void op_sm9(Rnd& r, Sink& s, const Shared* sh)
{
    Key9  key(r, s, sh);
    Bytes m = r.ebytes(r.len(100, 32));
    Buf   mb(m, off(r)), ib(key.id, off(r));
    Buf   px(32), py(32), qx(64), qy(64);
    key.u->get_priv(px, py, qx, qy);
    s.out(px), s.out(py), s.out(qx), s.out(qy);
    auto   f = r.below(3);
    Buf    sig(f == 1 ? 65 : 97, off(r));
    size_t n = 99999;
    DetRng g(r.next());
    key.u->sign(sig, &n, mb, m.size(), g, pc9(f));
    s.out(n), s.out(sig, n), s.out(g.n), s.unchanged(mb, m);
    auto ver = [&](const Bytes& v) {
        Buf b(v, off(r));
        s.out((u64)key.p->verify(b, v.size(), mb, m.size(), ib, key.id.size()));
        s.unchanged(b, v);
    };
    Bytes sg = sig.bytes(std::min(n, sig.size()));
    ver(sg);
    Bytes bad = sg;
    mutate(r, bad);
    ver(bad);
    bad = r.ebytes(r.below(110));
    if (bad.size() > 32) bad[32] = (u8)r.below(8);
    if (r.chance(1, 2)) ver(bad);
    else s.out((u64)key.u->verify(Buf(sg, off(r)), sg.size(), mb, m.size(), ib, key.id.size()));
    if (r.chance(1, 2))
    {
        Prv9 k;
        if (r.chance(1, 2)) qx[r.below(64)] ^= 1;
        if (r.chance(1, 2)) px[r.below(32)] ^= 1;
        attempt(s, [&] { k.set_priv(px, py, qx, qy); });
        Pub9 q;
        attempt(s, [&] { q.set_pub(qx, qy); });
    }
}
typedef void (*Fn)(Rnd&, Sink&, const Shared*);
struct Op
{
    const char* name;
    Fn          fn;
    unsigned    weight; // how often, inverse to the cost
};
inline const std::vector<Op>& all()
{
    static const std::vector<Op>& v = *new std::vector<Op>{
        {"sm3", op_sm3, 10},       {"hmac", op_hmac, 8},           {"ghash", op_ghash, 10},         {"block", op_block, 10},
        {"mode", op_mode, 20},     {"memory", op_mem, 8},          {"number", op_num, 10},          {"montgomery", op_mont, 8},
        {"asn1", op_asn1, 15},     {"sm2-sign", op_sm2_sign, 8},   {"sm2-crypt", op_sm2_crypt, 10}, {"sm2-public", op_sm2_pub, 8},
        {"sm9", op_sm9, 6},
    };
    return v;
}
// Runs operation `o` with the random stream `seed`.
inline Sink run(const Op& o, u64 seed, const Shared* sh, bool keep = false, std::function<void()> between = nullptr)
{
    Sink s;
    s.keep = keep, s.between = between;
    Rnd r(mix(seed));
    o.fn(r, s, sh);
    return s;
}
} // namespace ops
