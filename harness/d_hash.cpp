// C01 SM3, C02 HMAC-SM3
#include "ossl.h"
#include <gmlib/hash_lib/hmac.h>
#include <gmlib/sm3/internal/sm3_common.h>
#include <gmlib/sm3/internal/sm3_yang15.h>
#include <gmlib/sm3/sm3.h>
#include <memory>
#include "toy.h"
using namespace vf;
using sm3::SM3;

static void feed(Ctx& c, SM3& h, const Bytes& m, bool inFinal, u8* digest)
{
    auto   parts = c.r.split(m.size(), 64);
    size_t pos   = 0;
    for (size_t i = 0; i < parts.size(); i++)
    {
        Buf b(m.data() + pos, parts[i], c.r.below(9));
        c.in(parts[i]);
        if (inFinal && i + 1 == parts.size())
        {
            h.do_final(digest, b, b.size());
            return;
        }
        h.update(b, b.size());
        pos += parts[i];
    }
    if (c.r.chance(1, 2))
        h.do_final(digest);
    else
    {
        Buf e(0);
        h.do_final(digest, e, 0);
    }
}

// Very long messages over a read-only zero mapping: the length counter must
// survive 2^32 bits (512 MiB) and 2^32 bytes.
static const u8* zeros(size_t n)
{
    static const u8* p = nullptr;
    static size_t    sz = 0;
    if (sz < n)
    {
        void* q = mmap(nullptr, n, PROT_READ,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (q == MAP_FAILED) ossl::die("mmap");
        p = (const u8*)q, sz = n;
    }
    return p;
}
VF_CASE("C01", "huge", 2, 0, 4,
        [](Ctx& c) {
            // expected values computed once with an independent implementation
            static const struct { u64 n; const char* d; } L[] = {
{4294967305ull, "8a3716515581ec0e6013d9a697c473bbd7522073be41bbc28e0e4e2e25e81c9c"},
{536870989ull, "84dd1358c20a216c84de106d47cd59c17881dd2b401b6255d57fd78a3a7ede31"},
{536870911ull, "1c4679f9e1f0dcbe86f8cd17b4df4fa26c84cde56f68b1b0b71ceb50c404b442"},
{536870903ull, "469307ac45880f95b1ca98e04a40c15f84501b6212b826161c0de76dc3728b0b"},
{4294967295ull, "0bc60a3a810c54e68e6413a624c2c1b473ae550dab8ec46930ad6dfc844ee0c2"},
{2147483712ull, "186bb26c43e493e973ab544dcb1ccb27285349e23770b04353a97357a6e9a52f"},
{8589934647ull, "a31ebd2aa89ad175a4ea94b29e2ee8513543cd4724dbdbf05385339ed158cd8c"},
{4294967488ull, "325d8ff68f173cc5f157ecfae445f6de5308fc029eea584d125d4089fd6ec27e"}};
            u64 n = L[c.idx % 8].n;
            if (st().config == "port" && !st().thorough)
            {
                c.nontrivial = false; // same SM3 code as in "simd"
                return;
            }
            c.in(n);
            const u8* z = zeros(n);
            SM3       h;
            Buf       d(32);
            if (c.idx % 2 == 0)
            {
                h.update(z, 13);
                h.update(z, n - 13);
            }
            else
                h.update(z, n);
            h.do_final(d);
            Bytes e = unhex(L[c.idx % 8].d);
            c.eq("huge", d.p(), e.data(), 32,
                 fmt("SM3 of %llu zero bytes", (unsigned long long)n));
            c.tag(n >= (1ull << 32) ? "beyond-2^32-bytes" : "around-2^32-bits");
            c.sample(fmt("%llu zero bytes", (unsigned long long)n));
        },
        600);
VF_CASE("C01", "every-length", 1100, 0.6, 3, [](Ctx& c) {
    // every length 0.. in one piece and in random pieces
    size_t n = c.idx < 700 ? c.idx : c.r.len(20000, 64);
    Bytes  m = c.r.ebytes(n);
    c.in(m);
    Bytes e = ossl::sm3(m);
    c.tag(fmt("len%%64=%zu", n % 64));
    {
        SM3 h;
        Buf b(m, c.r.below(17)), d(32, c.r.below(5));
        h.update(b, n);
        h.do_final(d);
        c.eq("oneshot", d.p(), e.data(), 32, fmt("SM3 of %zu bytes", n));
        if (!d.ok()) c.fail("overwrite", "digest overran its 32 bytes");
    }
    {
        SM3 h;
        Buf b(m), d(32);
        h.do_final(d, b, n);
        c.eq("final-data", d.p(), e.data(), 32, "SM3 with data at finalisation");
    }
    c.sample(fmt("%zu bytes -> %s", n, hex(e).c_str()));
});

VF_CASE("C01", "chunked", 12000, 0.2, 20, [](Ctx& c) {
    size_t n = c.r.chance(1, 30) ? c.r.len(70000, 64) : c.r.len(1200, 64);
    Bytes  m = c.r.bytes(n);
    c.in(m);
    Bytes e = ossl::sm3(m);
    SM3   h;
    Buf   d(32);
    bool  fin = c.r.chance(1, 2);
    c.tag(fin ? "data-at-final" : "no-data-at-final");
    feed(c, h, m, fin, d);
    c.eq("chunked", d.p(), e.data(), 32, fmt("SM3 of %zu bytes in pieces", n));
    c.sample(fmt("%zu bytes in random pieces", n));
});

// long messages in few pieces
VF_CASE("C01", "scales", 84, 0.35, 12, [](Ctx& c) {
    size_t n = c.r.scale(c.idx, 11, 24);
    Bytes  m = c.r.bytes(n);
    c.in(n);
    Bytes  e = ossl::sm3(m);
    SM3    h;
    Buf    d(32);
    size_t p = 0;
    auto   parts = c.r.lumps(n, 64);
    std::string w = fmt("SM3 of %zu bytes in pieces", n);
    for (size_t i = 0; i < parts.size(); i++)
    {
        Buf b(m.data() + p, parts[i], c.r.below(9));
        w += fmt(" %zu", parts[i]);
        if (i + 1 == parts.size() && c.r.chance(1, 2)) h.do_final(d, b, parts[i]), i = parts.size();
        else
        {
            h.update(b, parts[i]);
            if (i + 1 == parts.size()) h.do_final(d);
        }
        if (i < parts.size()) p += parts[i];
    }
    c.eq("scales", d.p(), e.data(), 32, w);
    c.tag("long message");
    c.sample(w);
}, 120);

// one object used very many times
VF_CASE("C01", "endurance", 4, 0.5, 4, [](Ctx& c) {
    const size_t N = 66000 + c.r.below(500);
    SM3   h;
    Buf   d(32);
    Bytes m = c.r.bytes(3 * N);
    if (c.idx % 4 < 2)
    {
        size_t n = 0;
        for (size_t i = 0; i < N; i++)
        {
            size_t k = c.idx % 2 ? c.r.below(4) : 1;
            h.update(m.data() + n, k);
            n += k;
        }
        m.resize(n);
        h.do_final(d);
        c.eq("endurance", d.p(), ossl::sm3(m).data(), 32, fmt("SM3 of %zu bytes in %zu updates", n, N));
        c.tag("very many updates");
    }
    else
        for (size_t i = 0; i < N && !c.failed; i++)
        {
            size_t k = c.r.below(70), a = c.r.below(m.size() - k);
            h.update(m.data() + a, k);
            if (c.idx % 4 == 2 && c.r.chance(9, 10)) h.reset();
            else
            {
                h.do_final(d);
                h.reset();
                c.eq("endurance", d.p(), ossl::sm3(Bytes(m.begin() + (long)a, m.begin() + (long)(a + k))).data(), 32, fmt("message %zu on one object", i));
            }
            c.tag("very many messages on one object");
        }
    c.in(m.size()), c.in(d.p(), 32);
}, 120);
// histories of several objects with reset and copy; model = byte string
VF_CASE("C01", "history", 3000, 0.3, 20, [](Ctx& c) {
    std::vector<std::unique_ptr<SM3>> o;
    std::vector<Bytes>                m;
    std::vector<bool>                 done;
    o.emplace_back(new SM3);
    m.emplace_back();
    done.push_back(false);
    int         steps = (int)c.r.range(4, 40);
    std::string log;
    for (int s = 0; s < steps; s++)
    {
        size_t i  = c.r.below(o.size());
        int    op = (int)c.r.below(10);
        if (done[i] && op != 9) op = 7;
        if (op <= 5)
        {
            Bytes x = c.r.bytes(c.r.len(200, 64));
            c.in(x);
            Buf b(x);
            o[i]->update(b, x.size());
            m[i].insert(m[i].end(), x.begin(), x.end());
            log += fmt("u%zu:%zu ", i, x.size());
        }
        else if (op == 6)
        {
            Buf   d(32);
            Bytes x = c.r.bytes(c.r.len(130, 64));
            Buf   b(x);
            o[i]->do_final(d, b, x.size());
            m[i].insert(m[i].end(), x.begin(), x.end());
            Bytes e = ossl::sm3(m[i]);
            log += fmt("f%zu ", i);
            if (!c.eq("history", d.p(), e.data(), 32,
                      fmt("SM3 object after history %s", log.c_str())))
                return;
            done[i] = true;
            c.tag("finalised");
        }
        else if (op == 7)
        {
            c.tag(done[i]               ? "reset-after-final"
                  : m[i].size() % 64 != 0 ? "reset-half-block"
                                          : "reset-other");
            o[i]->reset();
            m[i].clear();
            done[i] = false;
            log += fmt("r%zu ", i);
        }
        else if (o.size() < 6)
        {
            c.tag(m[i].size() % 64 ? "copy-half-block" : "copy-other");
            if (op == 8)
                o.emplace_back(new SM3(*o[i]));
            else
            {
                o.emplace_back(new SM3);
                Bytes x = c.r.bytes(70);
                o.back()->update(x.data(), x.size());
                *o.back() = *o[i];
            }
            m.push_back(m[i]);
            done.push_back(done[i]);
            log += fmt("c%zu ", i);
        }
    }
    for (size_t i = 0; i < o.size(); i++)
        if (!done[i])
        {
            Buf d(32);
            o[i]->do_final(d);
            Bytes e = ossl::sm3(m[i]);
            c.eq("history", d.p(), e.data(), 32,
                 fmt("SM3 object after history %s", log.c_str()));
        }
    c.in(hash_str(log.c_str()));
    c.sample(log);
});

template <class C, class I, class Rst, class U, class F>
static void impl(Ctx& c, const char* nm, I init, Rst reset, U upd, F fin)
{
    size_t n = c.idx < 300 ? c.idx : c.r.len(3000, 64);
    Bytes  m = c.r.ebytes(n);
    c.in(m);
    std::unique_ptr<C> ctx(new C);
    std::memset((void*)ctx.get(), 0x5a, sizeof(C));
    init(ctx.get());
    if (c.r.chance(1, 3))
    {
        Bytes x = c.r.bytes(64 * c.r.below(4));
        upd(ctx.get(), x.data(), x.size() / 64);
        reset(ctx.get());
        c.tag("impl-reset");
    }
    Buf    b(m, c.r.below(8)), d(32);
    size_t blocks = n / 64, pos = 0;
    while (blocks)
    {
        size_t k = 1 + c.r.below(blocks);
        int    e = upd(ctx.get(), b + pos, k);
        if (e) c.fail("impl-error", "%s update returned %d", nm, e);
        pos += 64 * k, blocks -= k;
    }
    Buf t(m.data() + pos, n - pos, c.r.below(4));
    int e = fin(ctx.get(), d.p(), t.p(), n - pos);
    if (e) c.fail("impl-error", "%s final returned %d", nm, e);
    Bytes x = ossl::sm3(m);
    c.eq((std::string("impl-") + nm).c_str(), d.p(), x.data(), 32,
         fmt("SM3 %s of %zu bytes", nm, n));
}
VF_CASE("C01", "impl-common", 1500, 0.3, 20, [](Ctx& c) {
    namespace a = sm3::internal::common;
    impl<a::Sm3CTX>(c, "common", a::sm3_init, a::sm3_reset,
                    a::sm3_update_blocks, a::sm3_final_block);
});
#ifdef SUPPORT_SM3_YANG15
VF_CASE("C01", "impl-yang15", 1500, 0.3, 20, [](Ctx& c) {
    namespace a = sm3::internal::yang15;
    impl<a::Sm3CTX>(c, "yang15", a::sm3_init, a::sm3_reset,
                    a::sm3_update_blocks, a::sm3_final_block);
});
#endif

VF_REQ("C01", "reset-half-block", "copy-half-block", "reset-after-final",
       "len%64=55", "len%64=56", "len%64=63", "len%64=0");

// ---------------------------------------------------------------- C02
typedef hash_lib::HMac<SM3> H;
static Bytes hkey(Ctx& c)
{
    size_t n;
    switch (c.r.below(4))
    {
    case 0: n = c.r.below(66); break;
    case 1: n = c.r.pick<size_t>({0, 1, 31, 32, 33, 55, 56, 63, 64, 65, 66, 127, 128, 129}); break;
    case 2: n = c.r.len(400, 64); break;
    default: n = 60 + c.r.below(12);
    }
    return c.r.ebytes(n);
}
VF_CASE("C02", "mac", 60000, 0.2, 20, [](Ctx& c) {
    Bytes key = c.idx < 300 ? c.r.bytes(c.idx) : hkey(c);
    Bytes m   = c.r.bytes(c.r.chance(1, 40) ? c.r.len(20000, 64) : c.r.len(500, 64));
    c.in(key), c.in(m);
    Bytes e = ossl::hmac_sm3(key, m);
    Buf   kb(key, c.r.below(5)), d(32);
    H     h(kb, key.size());
    kb.drop();
    auto  parts = c.r.split(m.size(), 64);
    size_t pos  = 0;
    bool   fin  = c.r.chance(1, 2), done = false;
    for (size_t i = 0; i < parts.size(); i++)
    {
        Buf b(m.data() + pos, parts[i], c.r.below(5));
        if (fin && i + 1 == parts.size())
            h.do_final(d, b, b.size()), done = true;
        else
            h.update(b, b.size());
        pos += parts[i];
    }
    if (!done) h.do_final(d);
    c.tag(key.size() < 64 ? "key<64" : key.size() == 64 ? "key=64" : "key>64");
    c.eq("mac", d.p(), e.data(), 32,
         fmt("HMAC key %zu bytes, message %zu bytes", key.size(), m.size()));
    if (!d.ok()) c.fail("overwrite", "MAC overran its 32 bytes");
    c.sample(fmt("key %zu msg %zu -> %s", key.size(), m.size(), hex(e).c_str()));
});
// long keys and messages
VF_CASE("C02", "scales", 96, 0.35, 12, [](Ctx& c) {
    size_t n  = c.idx & 1 ? c.r.scale(c.idx / 2, 11, 22) : c.r.below(300);
    size_t nk = c.idx & 1 ? c.r.below(150) : c.r.scale(c.idx / 2, 9, 22);
    if (c.r.chance(1, 4)) nk = c.r.scale(c.r.below(8), 9, 17);
    Bytes key = c.r.bytes(nk), m = c.r.bytes(n);
    c.in(nk), c.in(n);
    Bytes e = ossl::hmac_sm3(key, m);
    Buf   kb(key, c.r.below(5)), d(32);
    std::unique_ptr<H> h(c.r.chance(1, 2) ? new H(kb, nk) : new H((const u8*)"k", 1));
    h->set_key(kb, nk);
    kb.drop();
    size_t p = 0;
    for (size_t k : c.r.lumps(n, 64)) { Buf b(m.data() + p, k, 0); h->update(b, k); p += k; }
    h->do_final(d);
    c.eq("scales", d.p(), e.data(), 32, fmt("HMAC, key %zu bytes, message %zu bytes", nk, n));
    c.tag(c.idx & 1 ? "long message" : "long key");
}, 120);
VF_CASE("C02", "endurance", 4, 0.5, 4, [](Ctx& c) { // one object used very many times
    const size_t N = 66000 + c.r.below(500);
    Bytes m = c.r.bytes(2 * N), key = c.r.bytes(c.r.below(130));
    H     h(key.data(), key.size());
    Buf   d(32);
    if (c.idx % 2)
    {
        size_t n = 0;
        for (size_t i = 0; i < N; i++) { size_t k = c.r.below(3); h.update(m.data() + n, k); n += k; }
        m.resize(n);
        h.do_final(d);
        c.eq("endurance", d.p(), ossl::hmac_sm3(key, m).data(), 32, fmt("HMAC of %zu bytes in %zu updates", n, N));
        c.tag("very many updates");
    }
    else
        for (size_t i = 0; i < N && !c.failed; i++)
        {
            size_t k = c.r.below(70), a = c.r.below(m.size() - k), l = c.r.chance(1, 2) ? c.r.below(20) : 60 + c.r.below(10);
            h.set_key(m.data() + a / 2, l);
            h.update(m.data() + a, k);
            if (i % 16 && i + 600 < N) continue;
            h.do_final(d);
            c.eq("endurance", d.p(), ossl::hmac_sm3(Bytes(m.begin() + (long)(a / 2), m.begin() + (long)(a / 2 + l)), Bytes(m.begin() + (long)a, m.begin() + (long)(a + k))).data(), 32, fmt("key %zu on one object", i));
            c.tag("very many keys on one object");
        }
    c.in(m.size()), c.in(d.p(), 32);
}, 120);
VF_CASE("C02", "history", 20000, 0.2, 20, [](Ctx& c) {
    std::unique_ptr<H> h(c.r.chance(1, 2) ? new H : new H((const u8*)"x", 1));
    std::string log;
    int         rounds = (int)c.r.range(2, 7);
    Bytes       key;
    for (int i = 0; i < rounds; i++)
    {
        key = c.r.renew(key, hkey(c));
        if (c.r.chance(1, 12)) key.resize(key.size() + c.r.below(3) , 0); // the same key for short ones
        Buf   kb(key);
        h->set_key(kb, key.size());
        kb.drop();
        Bytes  m;
        int    ups = (int)c.r.below(5);
        for (int u = 0; u < ups; u++)
        {
            Bytes x = c.r.bytes(c.r.len(200, 64));
            Buf   b(x);
            h->update(b, x.size());
            m.insert(m.end(), x.begin(), x.end());
        }
        log += fmt("k%zu m%zu ", key.size(), m.size());
        c.in(key), c.in(m);
        if (c.r.chance(1, 4)) // a copy continues independently
        {
            H     g(*h);
            Bytes x = c.r.bytes(c.r.below(100)), y(m), d(32);
            g.do_final(d.data(), x.data(), x.size());
            y.insert(y.end(), x.begin(), x.end());
            c.eq("copy", d, ossl::hmac_sm3(key, y), "HMAC of a copied object");
            c.tag("copied");
        }
        if (c.r.chance(2, 3))
        {
            Buf d(32);
            h->do_final(d);
            Bytes e = ossl::hmac_sm3(key, m);
            if (!c.eq("rekey", d.p(), e.data(), 32,
                      fmt("HMAC after history %s", log.c_str())))
                return;
            log += "F ";
            c.tag("rekey-after-final");
        }
        else
            c.tag(m.size() % 64 ? "rekey-half-fed" : "rekey-other");
    }
    c.sample(log);
});
// HMAC and the block buffering over a user's hash with other sizes
template <size_t BS, size_t DS>
static void toyh(Ctx& c)
{
    typedef toy::Hash<BS, DS> T;
    T                         t;
    hash_lib::HMac<T>         h;
    for (int round = 0; round < 3; round++)
    {
        Bytes key = c.r.bytes(c.r.chance(1, 2) ? BS - 1 + c.r.below(3) : c.r.below(3 * BS)), m = c.r.bytes(c.r.len(8 * BS, BS));
        c.in(key), c.in(m);
        Buf  kb(key), d(DS), f(DS);
        bool fin = c.r.chance(2, 3);
        h.set_key(kb, key.size());
        kb.drop();
        t.reset();
        size_t p = 0;
        for (size_t n : c.r.split(m.size(), BS))
        {
            Buf b(m.data() + p, n, 0);
            h.update(b, n), t.update(b, n);
            p += n;
        }
        if (!fin) continue;
        h.do_final(d), t.do_final(f);
        Bytes e = toy::hmac<BS, DS>(key, m), g = toy::digest<BS, DS>(m);
        c.eq("other-hash", f.p(), g.data(), DS, fmt("hash with %zu-byte blocks of %zu bytes", BS, m.size()));
        c.eq("other-hmac", d.p(), e.data(), DS, fmt("HMAC over a hash with %zu-byte blocks and %zu-byte digests, key %zu, message %zu", BS, DS, key.size(), m.size()));
        if (!d.ok()) c.fail("overwrite", "MAC overran its %zu bytes", DS);
    }
    c.tag("user-supplied hash");
}
VF_CASE("C02", "other-hash", 6000, 0.2, 20, [](Ctx& c) {
    switch (c.idx % 6)
    {
    case 0: toyh<64, 20>(c); break;
    case 1: toyh<128, 64>(c); break;
    case 2: toyh<144, 28>(c); break;
    case 3: toyh<7, 5>(c); break;
    case 4: toyh<32, 32>(c); break;
    default: toyh<65, 16>(c);
    }
});
VF_REQ("C02", "user-supplied hash", "key<64", "key=64", "key>64", "rekey-after-final",
       "rekey-half-fed");
VF_MAIN
