// C05 ECB/CBC, C06 CFB/OFB/CTR, C07 life cycle of mode objects
#include "modes.h"
#include "toy.h"
using namespace modes;

struct Stream
{ // feeds an object and keeps what it reported
    Ctx&        c;
    std::string what;
    Bytes       out;
    size_t      fed = 0;
    Stream(Ctx& c, std::string w) : c(c), what(std::move(w)) {}
    // returns false when an error was reported
    bool step(Obj& o, const u8* in, size_t n, bool fin, bool* threw = nullptr)
    {
        size_t cap = n + 16;
        Buf    ib(in, n, c.r.below(8)), ob(cap, c.r.below(8), 0x5e);
        size_t outl = 0xdeadbeef00ull + c.r.below(100);
        if (threw) *threw = false;
        try
        {
            const u8* ip = n == 0 && c.r.chance(1, 2) ? nullptr : ib.p();
            if (!fin) o.base()->update(ob, &outl, ip, n);
            else if (n == 0 && c.r.chance(1, 2)) o.base()->do_final(ob, &outl);
            else o.base()->do_final(ob, &outl, ip, n);
        }
        catch (std::exception&)
        {
            if (threw) *threw = true;
            else
            {
                c.fail("throws", "%s: %s threw", what.c_str(), fin ? "finalisation" : "update");
                return false;
            }
            return true;
        }
        fed += n;
        if (outl > cap || out.size() + outl > fed)
        {
            c.fail("outl", "%s: %s of %zu bytes reported %zu output bytes; %zu of %zu fed were out before",
                   what.c_str(), fin ? "do_final" : "update", n, outl, out.size(), fed);
            return false;
        }
        if (fin && out.size() + outl != fed)
        {
            c.fail("outl-final", "%s: %zu bytes fed, %zu reported after finalisation", what.c_str(), fed, out.size() + outl);
            return false;
        }
        for (size_t i = outl; i < cap; i++)
            if (ob.p()[i] != 0x5e)
            {
                c.fail("unreported-write", "%s: %s reported %zu bytes but changed byte %zu", what.c_str(),
                       fin ? "do_final" : "update", outl, i);
                return false;
            }
        if (!ob.ok()) { c.fail("overwrite", "%s: wrote outside the output", what.c_str()); return false; }
        if (n && std::memcmp(ib.p(), in, n) != 0) { c.fail("input-modified", "%s: input changed", what.c_str()); return false; }
        out.insert(out.end(), ob.p(), ob.p() + outl);
        return true;
    }
};

static Bytes special_iv(Ctx& c)
{
    Bytes iv = c.r.ebytes(16);
    if (c.r.chance(2, 3))
    { // a counter that carries k bytes far shortly
        size_t k = c.r.below(17);
        for (size_t i = 16 - k; i < 16; i++) iv[i] = 0xff;
        if (k < 16 && k) iv[15 - k] = (u8)c.r.next();
        if (k) { size_t d = c.r.below(40); iv[15] = (u8)(0xff - d); }
    }
    return iv;
}

static void whole(Ctx& c, Mode m)
{
    int    ci  = (int)(c.idx % 4);
    bool   enc = c.r.chance(1, 2);
    Bytes  key = c.r.ebytes(KEYLEN[ci]), iv = special_iv(c);
    size_t max = c.r.chance(1, 60) ? 20000 : c.r.chance(1, 4) ? 2500 : 700;
    size_t n   = c.r.len(max, c.r.chance(1, 2) ? 16 : 128);
    bool   blk = m == ECB || m == CBC;
    if (blk && c.r.chance(7, 8)) n = n / 16 * 16;
    Bytes in = c.r.ebytes(n);
    c.in(key), c.in(iv), c.in(in), c.in((u64)m * 2 + enc);
    std::string what = fmt("%s-%s %s of %zu bytes", CIPHER_NAME[ci], MODE_NAME[m], enc ? "encryption" : "decryption", n);
    auto        o    = make(ci, m, enc, c.r.chance(1, 2), key, iv);
    Stream      s(c, what);
    auto        chunks = c.r.split(n, 16);
    size_t      p      = 0;
    bool        lastin = c.r.chance(1, 3) && !chunks.empty();
    c.tag(fmt("%s-%s-%s", CIPHER_NAME[ci], MODE_NAME[m], enc ? "enc" : "dec"));
    for (size_t i = 0; i < chunks.size(); i++)
    {
        size_t k = chunks[i];
        c.in(k);
        if (lastin && i + 1 == chunks.size()) break;
        if (!s.step(*o, in.data() + p, k, false)) return;
        p += k;
    }
    bool threw;
    if (!s.step(*o, in.data() + p, n - p, true, &threw)) return;
    if (blk && n % 16)
    {
        c.tag("refused");
        if (!threw) c.fail("not-refused", "%s: partial block accepted", what.c_str());
        c.out(s.out), c.out(1);
        Bytes e = ref_prefix(ci, m, enc, key, iv, in);
        if (s.out.size() <= e.size())
            c.eq("value", s.out, Bytes(e.begin(), e.begin() + s.out.size()), what);
        return;
    }
    if (threw) { c.fail("throws", "%s: finalisation threw", what.c_str()); return; }
    Bytes e = ref(ci, m, enc, key, iv, in);
    c.out(s.out);
    c.eq("value", s.out, e, what + fmt(" in %zu chunks", chunks.size()));
    // and back
    auto   d = make(ci, m, !enc, false, key, iv);
    Stream t(c, "inverse of " + what);
    p = 0;
    for (size_t k : c.r.split(n, 16))
    {
        if (!t.step(*d, e.data() + p, k, false)) return;
        p += k;
    }
    if (!t.step(*d, nullptr, 0, true)) return;
    c.eq("inverse", t.out, in, "inverse of " + what);
    c.sample(what + " key " + hex(key) + " iv " + hex(iv));
}
VF_CASE("C05", "ecb", 12000, 0.12, 15, [](Ctx& c) { whole(c, ECB); });
VF_CASE("C05", "cbc", 12000, 0.12, 15, [](Ctx& c) { whole(c, CBC); });
VF_CASE("C06", "cfb", 12000, 0.12, 15, [](Ctx& c) { whole(c, CFB); });
VF_CASE("C06", "ofb", 12000, 0.12, 15, [](Ctx& c) { whole(c, OFB); });
VF_CASE("C06", "ctr", 24000, 0.12, 15, [](Ctx& c) { whole(c, CTR); });

// every length 0..272 with every two-way split
static void splits(Ctx& c, Mode m0, Mode m1)
{
    Mode   m   = (Mode)((int)m0 + c.idx % ((int)m1 - (int)m0 + 1));
    int    ci  = (int)(c.idx / 5 % 4);
    bool   enc = c.idx / 20 % 2;
    size_t n   = c.r.below(2) ? 272 : c.r.below(273);
    if (m <= CBC) n = n / 16 * 16;
    Bytes key = c.r.bytes(KEYLEN[ci]), iv = special_iv(c), in = c.r.bytes(n);
    c.in(key), c.in(in), c.in(iv);
    Bytes e = ref(ci, m, enc, key, iv, in);
    for (size_t a = 0; a <= n; a++)
    {
        auto        o = make(ci, m, enc, true, key, iv);
        std::string w = fmt("%s-%s %s of %zu bytes split at %zu", CIPHER_NAME[ci], MODE_NAME[m], enc ? "encryption" : "decryption", n, a);
        Stream      s(c, w);
        size_t      b = a + c.r.below(n - a + 1);
        if (!s.step(*o, in.data(), a, false) || !s.step(*o, in.data() + a, b - a, false) || !s.step(*o, in.data() + b, n - b, true)) return;
        if (!c.eq("value", s.out, e, w)) return;
    }
}
VF_CASE("C05", "splits", 80, 0.5, 10, [](Ctx& c) { splits(c, ECB, CBC); });
VF_CASE("C06", "splits", 120, 0.5, 10, [](Ctx& c) { splits(c, CFB, CTR); });

// the output may be the input buffer
static void inplace(Ctx& c, Mode m)
{
    int    ci  = (int)(c.idx % 4);
    bool   enc = c.idx / 4 % 2;
    size_t n   = c.r.len(c.r.chance(1, 4) ? 2500 : 600, c.r.chance(1, 2) ? 16 : 128);
    if (m <= CBC) n = n / 16 * 16;
    Bytes key = c.r.bytes(KEYLEN[ci]), iv = special_iv(c), in = c.r.bytes(n);
    c.in(key), c.in(iv), c.in(in), c.in((u64)m * 2 + enc);
    auto        o = make(ci, m, enc, c.r.chance(1, 2), key, iv);
    Buf         b(in, c.r.below(17));
    size_t      p = 0, w = 0;
    std::string what = fmt("%s-%s %s of %zu bytes in place, chunks", CIPHER_NAME[ci], MODE_NAME[m], enc ? "encryption" : "decryption", n);
    auto        ch   = c.r.chance(1, 3) ? std::vector<size_t>{n} : c.r.split(n, 16);
    for (size_t i = 0; i < ch.size(); i++)
    {
        size_t l = 99999999;
        what += fmt(" %zu", ch[i]);
        o->base()->update(b + w, &l, b + p, ch[i]);
        p += ch[i], w += l;
        if (w > p) { c.fail("outl", "%s: %zu bytes out of %zu fed", what.c_str(), w, p); return; }
    }
    size_t l = 99999999;
    o->base()->do_final(b + w, &l);
    c.eq("in-place", b.bytes(), ref(ci, m, enc, key, iv, in), what);
    if (w + l != n) c.fail("outl-final", "%s: %zu bytes reported", what.c_str(), w + l);
    if (!b.ok()) c.fail("overwrite", "%s: wrote outside", what.c_str());
    c.tag(fmt("in place %s-%s", MODE_NAME[m], enc ? "enc" : "dec"));
}
VF_CASE("C05", "in-place", 6000, 0.2, 15, [](Ctx& c) { inplace(c, (Mode)(ECB + c.idx / 8 % 2)); });
VF_CASE("C06", "in-place", 9000, 0.2, 15, [](Ctx& c) { inplace(c, (Mode)(CFB + c.idx / 8 % 3)); });

// cipher classes of a user, with other block and batch sizes
template <size_t BS, size_t PN, class O>
static void other2(Ctx& c, int m, bool enc)
{
    typedef toy::Cipher<BS, PN> C;
    C::misuse = 0;
    Bytes  key = c.r.bytes(24), iv = c.r.ebytes(BS);
    size_t n = c.r.len(BS * (c.r.chance(1, 5) ? 40 : 9), BS);
    if (m < 2) n = n / BS * BS;
    if (c.r.chance(1, 2)) { size_t k = c.r.below(BS + 1); for (size_t i = BS - k; i < BS; i++) iv[i] = 0xff; iv[BS - 1] -= (u8)c.r.below(4); }
    std::string what = fmt("%s %s of %zu bytes with a cipher of %zu-byte blocks in batches of %zu", MODE_NAME[m], enc ? "encryption" : "decryption", n, BS, PN);
    O o;
    for (int round = 0; round < 2; round++)
    {
        Bytes in = c.r.bytes(n), got;
        c.in(key), c.in(iv), c.in(in), c.in(m * 2 + enc);
        Buf kb(key), vb(iv);
        if constexpr (std::is_invocable_v<decltype(&O::reset), O&>) round ? o.reset() : o.init(kb);
        else round ? o.reset(vb) : o.init(kb, vb);
        kb.drop(), vb.drop();
        size_t p = 0;
        auto   ch = c.r.split(n, BS);
        for (size_t i = 0; i <= ch.size(); i++)
        {
            size_t k = i < ch.size() ? ch[i] : 0, l = 999999;
            Buf    ib(in.data() + p, k, c.r.below(4)), ob(k + BS, c.r.below(4), 0x5e);
            if (i < ch.size()) o.update(ob, &l, ib, k);
            else o.do_final(ob, &l);
            p += k;
            if (l > k + BS || got.size() + l > p) { c.fail("outl", "%s: reported %zu of %zu", what.c_str(), l, p - got.size()); return; }
            for (size_t j = l; j < k + BS; j++)
                if (ob.p()[j] != 0x5e) { c.fail("unreported-write", "%s: wrote byte %zu, reported %zu", what.c_str(), j, l); return; }
            if (!ob.ok()) c.fail("overwrite", "%s: wrote outside", what.c_str());
            got.insert(got.end(), ob.p(), ob.p() + l);
        }
        c.eq("other-cipher", got, toy::mode<BS, PN>(m, enc, key, iv, in), what);
        if (C::misuse) c.fail("other-cipher-direction", "%s: used the cipher against the direction it was keyed for", what.c_str());
        if (c.failed) return;
    }
    if (m < 2 && BS > 1)
    {
        Buf    kb(key), vb(iv);
        if constexpr (std::is_invocable_v<decltype(&O::reset), O&>) o.init(kb);
        else o.init(kb, vb);
        Bytes  in = c.r.bytes(1 + c.r.below(4 * BS)), ob(in.size() + BS);
        size_t l;
        bool   threw = false;
        try { o.do_final(ob.data(), &l, in.data(), in.size()); } catch (std::exception&) { threw = true; }
        if (threw != (in.size() % BS != 0)) c.fail("not-refused", "%s of %zu bytes with %zu-byte blocks %s", MODE_NAME[m], in.size(), BS, threw ? "refused" : "accepted");
    }
}
template <size_t BS, size_t PN>
static void other(Ctx& c, int m)
{
    typedef toy::Cipher<BS, PN> C;
    bool                        e = c.r.chance(1, 2);
    c.tag(fmt("user-supplied cipher %s", MODE_NAME[m]));
    switch (m * 2 + e)
    {
    case 0: other2<BS, PN, bm::EcbDecryptor<C>>(c, m, e); break;
    case 1: other2<BS, PN, bm::EcbEncryptor<C>>(c, m, e); break;
    case 2: other2<BS, PN, bm::CbcDecryptor<C>>(c, m, e); break;
    case 3: other2<BS, PN, bm::CbcEncryptor<C>>(c, m, e); break;
    case 4: other2<BS, PN, bm::CfbDecryptor<C>>(c, m, e); break;
    case 5: other2<BS, PN, bm::CfbEncryptor<C>>(c, m, e); break;
    case 6: other2<BS, PN, bm::OfbDecryptor<C>>(c, m, e); break;
    case 7: other2<BS, PN, bm::OfbEncryptor<C>>(c, m, e); break;
    case 8: other2<BS, PN, bm::CtrDecryptor<C>>(c, m, e); break;
    default: other2<BS, PN, bm::CtrEncryptor<C>>(c, m, e);
    }
}
static void other_case(Ctx& c, int m)
{
    switch (c.r.below(7))
    {
    case 0: other<8, 4>(c, m); break;
    case 1: other<8, 1>(c, m); break;
    case 2: other<5, 3>(c, m); break;
    case 3: other<16, 3>(c, m); break;
    case 4: other<32, 2>(c, m); break;
    case 5: other<24, 5>(c, m); break;
    default: other<16, 40>(c, m);
    }
}
VF_CASE("C05", "other-cipher", 6000, 0.2, 15, [](Ctx& c) { other_case(c, (int)(c.idx % 2)); });
VF_CASE("C06", "other-cipher", 9000, 0.2, 15, [](Ctx& c) { other_case(c, 2 + (int)(c.idx % 3)); });

// one object used very many times: many small pieces, then many short messages
static void endurance(Ctx& c, Mode m)
{
    int    ci  = (int)(c.idx % 4);
    bool   enc = c.r.chance(1, 2), many = c.r.chance(1, 2);
    size_t N   = 66000 + c.r.below(500), n = 0;
    Bytes  key = c.r.bytes(KEYLEN[ci]), iv = special_iv(c), in = c.r.bytes(2 * N), out(2 * N + 64);
    if (many) in.resize(m < CFB ? 1040 : 1000);
    c.in(key), c.in(iv), c.in(in);
    auto o = make(ci, m, enc, false, key, iv);
    size_t w = 0, l = 77;
    std::string what = fmt("%s-%s %s", CIPHER_NAME[ci], MODE_NAME[m], enc ? "encryption" : "decryption");
    if (many)
    { // N messages, the last ones checked
        for (size_t i = 0; i < N && !c.failed; i++)
        {
            if (!o->reset(iv) || i % 7 == 0) o->init(key, iv, {});
            size_t k = i % 16 == 0 || i + 600 > N ? 16 * c.r.below(8) + (m < CFB ? 0 : c.r.below(16)) : c.r.below(40);
            o->base()->update(out.data(), &w, in.data(), k);
            if (i % 16 && i + 600 <= N) continue;
            o->base()->do_final(out.data() + w, &l);
            Bytes p(in.begin(), in.begin() + (long)k);
            if (w + l != k) c.fail("outl", "%s: message %zu on one object: %zu bytes reported of %zu", what.c_str(), i, w + l, k);
            else c.eq("value", Bytes(out.begin(), out.begin() + (long)k), ref(ci, m, enc, key, iv, p), what + fmt(", message %zu on one object", i));
        }
        c.tag("very many messages on one object");
        return;
    }
    for (size_t i = 0; i < N; i++)
    {
        size_t k = c.r.below(3);
        o->base()->update(out.data() + w, &l, in.data() + n, k);
        n += k, w += l;
        if (w > n) { c.fail("outl", "%s: %zu bytes reported of %zu in %zu updates", what.c_str(), w, n, i + 1); return; }
    }
    size_t k = m < CFB ? (16 - n % 16) % 16 : 0;
    o->base()->do_final(out.data() + w, &l, in.data() + n, k);
    n += k, w += l;
    in.resize(n), out.resize(n);
    if (w != n) c.fail("outl", "%s: %zu bytes reported of %zu in %zu updates", what.c_str(), w, n, N);
    else c.eq("value", out, ref(ci, m, enc, key, iv, in), what + fmt(" of %zu bytes in %zu updates", n, N));
    c.tag("very many updates");
}
VF_CASE("C05", "endurance", 8, 0.5, 4, [](Ctx& c) { endurance(c, c.idx / 4 % 2 ? ECB : CBC); }, 120);
VF_CASE("C06", "endurance", 12, 0.5, 4, [](Ctx& c) { endurance(c, (Mode)(CFB + c.idx % 3)); }, 120);
// long messages: counters that carry into the third and fourth byte, long chains
static void big(Ctx& c, Mode m)
{
    int    ci  = (int)(c.idx % 4);
    bool   enc = c.idx / 4 % 2;
    size_t n   = ((size_t)1 << 20) + 16 * c.r.below(30000) + (m >= CFB ? c.r.below(16) : 0);
    if (c.idx % 5 == 4) n += (size_t)1 << 22;
    Bytes key = c.r.bytes(KEYLEN[ci]), iv = special_iv(c), in = c.r.bytes(n);
    c.in(key), c.in(in), c.in(iv);
    auto o = make(ci, m, enc, false, key, iv);
    std::string w = fmt("%s-%s %s of %zu bytes", CIPHER_NAME[ci], MODE_NAME[m], enc ? "encryption" : "decryption", n);
    Stream      s(c, w);
    size_t      p = 0;
    while (p < n)
    {
        size_t k = c.r.chance(1, 3) ? n - p : c.r.below(std::min<size_t>(n - p, 300000) + 1);
        if (!s.step(*o, in.data() + p, k, false)) return;
        p += k;
    }
    if (!s.step(*o, nullptr, 0, true)) return;
    c.out(s.out);
    c.eq("value", s.out, ref(ci, m, enc, key, iv, in), w);
    c.tag("long message");
}
// lengths around powers of two, few pieces
static void scales(Ctx& c, Mode m)
{
    int    ci  = (int)(c.idx % 4);
    bool   enc = c.r.chance(1, 2);
    size_t n   = c.r.scale(c.idx / 4, 10, 21), p = 0;
    if (m < CFB) n -= n % 16;
    Bytes key = c.r.bytes(KEYLEN[ci]), iv = special_iv(c), in = c.r.bytes(n);
    c.in(key), c.in(in), c.in(iv);
    auto o = make(ci, m, enc, c.r.chance(1, 2), key, iv);
    std::string w = fmt("%s-%s %s of %zu bytes in pieces", CIPHER_NAME[ci], MODE_NAME[m], enc ? "encryption" : "decryption", n);
    Stream      s(c, w);
    for (size_t k : c.r.lumps(n, c.r.chance(1, 2) ? 16 : 128))
    {
        if (!s.step(*o, in.data() + p, k, false)) return;
        p += k;
    }
    if (!s.step(*o, nullptr, 0, true)) return;
    c.out(s.out);
    c.eq("value", s.out, ref(ci, m, enc, key, iv, in), w);
    c.tag("lengths around powers of two");
}
VF_CASE("C05", "scales", 96, 0.3, 10, [](Ctx& c) { scales(c, c.r.chance(1, 2) ? ECB : CBC); }, 120);
VF_CASE("C06", "scales", 144, 0.3, 10, [](Ctx& c) { scales(c, (Mode)(CFB + c.r.below(3))); }, 120);
VF_CASE("C05", "big", 12, 0.25, 10, [](Ctx& c) { big(c, c.idx % 2 ? ECB : CBC); }, 240);
VF_CASE("C06", "big", 12, 0.25, 10, [](Ctx& c) { big(c, (Mode)(CFB + c.idx % 3)); }, 240);

// one update of more than 2^32 bytes; input is untouched zero pages, output a
// small window mapped over and over
static void huge(Ctx& c, Mode m)
{
    if (st().config != "simd") { c.nontrivial = false; return; }
    const size_t W = (size_t)1 << 26;
    size_t       n = ((size_t)1 << 32) + W + 16 * (1 + c.r.below(100));
    size_t       len = (n + W - 1) / W * W;
    int          fd = memfd_create("vf", 0);
    if (fd < 0 || ftruncate(fd, (off_t)W)) { c.nontrivial = false; return; }
    u8* in  = (u8*)mmap(nullptr, len, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    u8* out = (u8*)mmap(nullptr, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (in == MAP_FAILED || out == MAP_FAILED) { c.nontrivial = false; return; }
    for (size_t i = 0; i < len; i += W)
        if (mmap(out + i, W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { c.nontrivial = false; return; }
    Bytes key = c.r.bytes(16), iv = special_iv(c);
    c.in(key), c.in(iv);
    auto   o = make(1, m, true, true, key, iv);
    size_t l1 = 0, l2 = 0;
    o->base()->update(out, &l1, in, n);
    o->base()->do_final(out + l1, &l2);
    std::string w = fmt("AES-128-%s encryption of %zu bytes in one update", MODE_NAME[m], n);
    if (l1 + l2 != n) c.fail("outl-huge", "%s: %zu bytes reported", w.c_str(), l1 + l2);
    else
    {
        size_t k = 1 << 20;
        Bytes  got(out + n - k, out + n), e;
        if (m == CTR)
        {
            Bytes c0(16);
            gcmref::store(c0.data(), gcmref::load(iv.data()) + (n - k) / 16);
            e = gcmref::ctr(ecb(1), key, c0, Bytes(k, 0));
        }
        else e = ossl::crypt(ecb(1), key, {}, Bytes(k, 0), 1);
        c.eq("value-huge", got, e, w);
        c.tag("update over 4 GiB");
    }
    munmap(in, len), munmap(out, len), close(fd);
}
VF_CASE("C05", "huge", 1, 0, 2, [](Ctx& c) { huge(c, ECB); }, 300);
VF_CASE("C06", "huge", 1, 0, 2, [](Ctx& c) { huge(c, CTR); }, 300);

// C07: random histories on one object, model = data fed since init/reset
static void history(Ctx& c, Mode m)
{
    int    ci  = (int)(c.idx % 4);
    bool   enc = c.idx / 4 % 2;
    Bytes  key = c.r.bytes(KEYLEN[ci]), iv = m == GCM ? c.r.bytes(1 + c.r.below(40)) : c.r.bytes(16), aad;
    if (m == GCM) aad = c.r.bytes(c.r.below(50));
    c.in(key), c.in(iv);
    auto        o = make(ci, m, enc, c.r.chance(1, 2), key, iv, aad);
    std::string w = fmt("%s-%s %s object", CIPHER_NAME[ci], MODE_NAME[m], enc ? "encryption" : "decryption");
    std::unique_ptr<Stream> s(new Stream(c, w));
    Bytes                   fed;
    bool                    live = true;
    std::string             log;
    int                     steps = 3 + (int)c.r.below(20);
    const char*             prev  = "fresh";
    Bytes                   tg;
    auto check = [&](bool fin) {
        Bytes e = ref_prefix(ci, m, enc, key, iv, fed);
        if (s->out.size() > e.size()) { c.fail("too-much", "%s: more output than input%s", w.c_str(), log.c_str()); return; }
        e.resize(s->out.size());
        c.eq("history", s->out, e, w + (fin ? " at finalisation" : "") + " after" + log);
    };
    for (int i = 0; i < steps && !c.failed; i++)
    {
        int op = live ? (int)c.r.below(10) : 7 + (int)c.r.below(2);
        if (op < 5)
        {
            size_t n = c.r.chance(1, 3) ? c.r.below(8) : c.r.len(c.r.chance(1, 10) ? 600 : 80, 16);
            Bytes  d = c.r.bytes(n);
            fed.insert(fed.end(), d.begin(), d.end());
            log += fmt(" update(%zu)", n);
            s->what = w + " after" + log;
            if (!s->step(*o, d.data(), n, false)) return;
            check(false);
            prev = "half-fed";
            if (fed.size() % 16) c.tag("partial block pending");
        }
        else if (op < 7)
        {
            size_t n = c.r.below(3) ? c.r.below(40) : 0;
            if (m <= CBC && c.r.chance(2, 3)) n = (16 - fed.size() % 16) % 16 + 16 * c.r.below(3);
            Bytes d = c.r.bytes(n);
            fed.insert(fed.end(), d.begin(), d.end());
            log += fmt(" do_final(%zu)", n);
            s->what = w + " after" + log;
            bool threw, want = m <= CBC && fed.size() % 16, bad = false;
            if (m == GCM && !enc)
            {
                tg  = gcmref::tag(ecb(ci), key, iv, aad, fed);
                bad = c.r.chance(1, 3);
                if (bad) tg[c.r.below(16)] ^= (u8)(1 << c.r.below(8));
                o->set_tag(tg.data());
                want = bad;
            }
            if (!s->step(*o, d.data(), n, true, &threw)) return;
            c.tag(threw ? "finalisation refused" : "finalised");
            if (threw != want)
                c.fail("final-verdict", "%s: finalisation %s, expected %s, after%s", w.c_str(), threw ? "refused" : "accepted",
                       want ? "refusal" : "success", log.c_str());
            if (!threw) check(true);
            if (m == GCM && enc && !threw)
            {
                Bytes t(16);
                o->get_tag(t.data());
                c.eq("history-tag", t, gcmref::tag(ecb(ci), key, iv, aad, s->out), w + " tag after" + log);
            }
            live = false;
            prev = threw ? "refused" : "finalised";
        }
        else if (op < 9)
        {
            bool re = c.r.chance(1, 2) && m != GCM;
            Bytes iv0 = iv, ch;
            iv      = c.r.renew(iv, m == GCM ? c.r.bytes(c.r.chance(1, 3) ? 12 : 1 + c.r.below(40)) : c.r.bytes(16));
            if (m != GCM && s->out.size() >= 16 && c.r.chance(1, 6))
            { // the value a chained mode is at
                const Bytes& x = (m == CBC || m == CFB) && !enc ? fed : s->out;
                iv.assign(x.begin() + (long)(s->out.size() / 16 * 16 - 16), x.begin() + (long)(s->out.size() / 16 * 16));
                c.tag("restarted at the chaining value");
            }
            if (iv == iv0) c.tag("restarted with the same iv");
            if (re) { o->reset(iv); log += " reset"; c.tag(fmt("reset when %s", prev)); }
            else
            {
                Bytes k0 = key;
                key      = c.r.renew(key, c.r.bytes(KEYLEN[ci]));
                if (m == GCM) aad = c.r.renew(aad, c.r.bytes(c.r.below(50)));
                if (key == k0) c.tag(iv == iv0 ? "same key and iv" : "same key");
                o->init(key, iv, aad);
                log += " init";
                c.tag(fmt("init when %s", prev));
            }
            s.reset(new Stream(c, w));
            fed.clear();
            live = true;
            prev = "fresh";
        }
        else
        { // continue on a copy; the original goes on being used for something else
            auto k = o->clone();
            size_t l;
            u8     junk[64], jo[80];
            std::memset(junk, 7, 64);
            o->base()->update(jo, &l, junk, 1 + c.r.below(63));
            o = std::move(k);
            log += " copy";
            c.tag("copied");
        }
        c.in(c.r.s);
    }
    c.out(s->out);
    c.sample(w + ":" + log);
}
static void hist_case(Ctx& c)
{
    static const Mode ms[] = {ECB, CBC, CFB, OFB, CTR, GCM, GCM};
    history(c, ms[c.idx / 8 % 7]);
}
VF_CASE("C07", "history", 40000, 0.1, 20, hist_case);
VF_REQ("C05", "in place CBC-dec", "user-supplied cipher CBC", "SM4-ECB-enc", "SM4-CBC-dec", "AES-128-CBC-dec", "AES-192-ECB-enc", "AES-256-CBC-enc", "refused", "long message", "update over 4 GiB");
VF_REQ("C06", "in place CFB-dec", "in place CTR-enc", "user-supplied cipher CTR", "SM4-CTR-enc", "SM4-CFB-dec", "AES-128-OFB-dec", "AES-192-CTR-enc", "AES-256-CFB-enc", "long message", "update over 4 GiB");
VF_REQ("C07", "init when half-fed", "init when finalised", "init when refused", "reset when half-fed", "reset when finalised", "reset when refused", "partial block pending", "copied");
VF_MAIN
