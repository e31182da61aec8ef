// C08 GCM encryption, C09 GCM decryption, C10 GHASH
#include "modes.h"
#include <gmlib/ghash/ghash.h>
#include <stdexcept>
using namespace modes;

static size_t iv_len(Ctx& c)
{
    switch (c.r.below(6))
    {
    case 0:
    case 1: return 12;
    case 2: return 1 + c.r.below(40);
    case 3: return 16 * (1 + c.r.below(6));
    case 4: return c.r.chance(1, 10) ? 1 + c.r.below(3000) : 1 + c.r.below(140);
    default: return 16;
    }
}
static void gcm_run(modes::Obj& o, Ctx& c, const Bytes& in, Bytes& out, bool& threw, const std::function<void()>& mid = nullptr)
{
    size_t n = in.size(), p = 0;
    auto   ch = c.r.split(n, 16);
    out.clear();
    threw = false;
    Buf    ob(n, c.r.below(8));
    size_t w    = 0;
    bool   last = c.r.chance(1, 3) && !ch.empty();
    size_t at   = c.r.below(ch.size() + 1); // when `mid` is done
    for (size_t i = 0; i < ch.size(); i++)
    {
        if (i == at && mid) mid();
        if (last && i + 1 == ch.size()) break;
        Buf    ib(in.data() + p, ch[i], c.r.below(4));
        size_t l = 12345;
        o.base()->update(ob + w, &l, ib, ch[i]);
        if (l > n - w) { c.fail("outl", "GCM update reported %zu bytes, %zu fed, %zu out before", l, p + ch[i], w); return; }
        w += l, p += ch[i];
    }
    if (at == ch.size() && mid) mid();
    Buf    ib(in.data() + p, n - p, 0);
    size_t l = 54321;
    try
    {
        if (p == n) o.base()->do_final(ob + w, &l);
        else o.base()->do_final(ob + w, &l, ib, n - p);
        if (w + l != n) { c.fail("outl", "GCM of %zu bytes reported %zu", n, w + l); return; }
    }
    catch (std::exception&)
    {
        threw = true;
    }
    if (!ob.ok()) c.fail("overwrite", "GCM wrote outside its output");
    out = ob.bytes();
}

static void seal_check(Ctx& c, int ci, const Bytes& key, const Bytes& iv, const Bytes& aad, const Bytes& pt, const char* what)
{
    auto  r = gcmref::seal(ecb(ci), key, iv, aad, pt);
    auto  o = make(ci, GCM, true, c.r.chance(1, 2), key, iv, aad);
    Bytes ct;
    bool  threw;
    gcm_run(*o, c, pt, ct, threw);
    if (c.failed) return;
    if (threw) { c.fail("throws", "GCM encryption threw"); return; }
    Buf tag(16, c.r.below(8));
    o->get_tag(tag);
    std::string w = fmt("%s-GCM %s iv %zu aad %zu message %zu", CIPHER_NAME[ci], what, iv.size(), aad.size(), pt.size());
    c.out(ct), c.out(tag.bytes());
    c.eq("ciphertext", ct, r.ct, w);
    c.eq("tag", tag.bytes(), r.tag, w + " tag");
    if (!tag.ok()) c.fail("overwrite", "get_tag wrote outside 16 bytes");
    c.sample(w + " key " + hex(key) + " iv " + hex(Bytes(iv.begin(), iv.begin() + std::min<size_t>(16, iv.size()))));
}

// the reference agrees with OpenSSL's AES-GCM
static void selftest(Ctx& c)
{
    Bytes k = c.r.bytes(16), iv = c.r.bytes(iv_len(c) % 128 + 1), a = c.r.bytes(c.r.below(100)), p = c.r.bytes(c.r.below(300));
    auto  x = gcmref::seal("AES-128-ECB", k, iv, a, p), y = gcmref::ossl_seal("AES-128-GCM", k, iv, a, p);
    if (x.ct != y.ct || x.tag != y.tag) { fprintf(stderr, "harness: GCM reference wrong\n"); exit(3); }
    c.nontrivial = false;
}
VF_CASE("C08", "selftest", 400, 0, 1, selftest);
VF_CASE("C09", "selftest", 400, 0, 1, selftest);
VF_CASE("C08", "seal", 30000, 0.1, 15, [](Ctx& c) {
    int   ci  = (int)(c.idx % 4);
    Bytes key = c.r.ebytes(KEYLEN[ci]), iv = c.r.ebytes(iv_len(c));
    Bytes aad = c.r.ebytes(c.r.chance(1, 4) ? 0 : c.r.len(c.r.chance(1, 20) ? 5000 : 200, 16));
    Bytes pt  = c.r.ebytes(c.r.chance(1, 8) ? 0 : c.r.len(c.r.chance(1, 40) ? 20000 : 500, c.r.chance(1, 2) ? 16 : 128));
    c.in(key), c.in(iv), c.in(aad), c.in(pt);
    c.tag(iv.size() == 12 ? "iv 12" : iv.size() % 16 ? "iv partial blocks" : "iv whole blocks");
    if (aad.empty()) c.tag("no aad");
    if (pt.empty()) c.tag("no message");
    if (aad.empty() && pt.empty()) c.tag("neither");
    seal_check(c, ci, key, iv, aad, pt, "");
});
// the output may be the input buffer
static void gcm_inplace(Ctx& c, bool enc)
{
    int   ci  = (int)(c.idx % 4);
    Bytes key = c.r.bytes(KEYLEN[ci]), iv = c.r.bytes(iv_len(c)), aad = c.r.bytes(c.r.below(60)), pt = c.r.bytes(c.r.len(c.r.chance(1, 4) ? 2500 : 500, 16));
    c.in(key), c.in(iv), c.in(aad), c.in(pt);
    auto   r = gcmref::seal(ecb(ci), key, iv, aad, pt);
    auto   o = make(ci, GCM, enc, true, key, iv, aad);
    Buf    b(enc ? pt : r.ct, c.r.below(17));
    size_t p = 0, w = 0, n = pt.size(), l = 99999999;
    std::string what = fmt("%s-GCM %s of %zu bytes in place, chunks", CIPHER_NAME[ci], enc ? "encryption" : "decryption", n);
    for (size_t k : c.r.chance(1, 3) ? std::vector<size_t>{n} : c.r.split(n, 16))
    {
        what += fmt(" %zu", k);
        o->base()->update(b + w, &l, b + p, k);
        p += k, w += l;
        if (w > p) { c.fail("outl", "%s: %zu bytes out of %zu fed", what.c_str(), w, p); return; }
    }
    if (!enc) o->set_tag(r.tag.data());
    try { o->base()->do_final(b + w, &l); }
    catch (std::exception&) { c.fail("in-place", "%s refused", what.c_str()); return; }
    c.eq("in-place", b.bytes(), enc ? r.ct : pt, what);
    if (enc)
    {
        Bytes t(16);
        o->get_tag(t.data());
        c.eq("in-place", t, r.tag, what + " tag");
    }
    if (w + l != n) c.fail("outl", "%s: %zu bytes reported", what.c_str(), w + l);
    if (!b.ok()) c.fail("overwrite", "%s: wrote outside", what.c_str());
    c.tag("in place");
}
VF_CASE("C08", "in-place", 3000, 0.2, 15, [](Ctx& c) { gcm_inplace(c, true); });
VF_CASE("C09", "in-place", 3000, 0.2, 15, [](Ctx& c) { gcm_inplace(c, false); });
VF_CASE("C08", "counter-wrap", 6000, 0.1, 15, [](Ctx& c) {
    int   ci  = (int)(c.idx % 4);
    Bytes key = c.r.bytes(KEYLEN[ci]), want = c.r.ebytes(16);
    // carries: the low k bytes of the counter are about to wrap
    size_t k = 1 + c.r.below(4);
    for (size_t i = 16 - k; i < 16; i++) want[i] = 0xff;
    want[15] = (u8)(0xff - c.r.below(40));
    if (c.r.chance(1, 3))
        for (int i = 0; i < 12; i++) want[i] = 0xff;
    Bytes H  = gcmref::hkey(ecb(ci), key);
    Bytes iv = gcmref::iv_for_j0(H, want);
    if (gcmref::j0(H, iv) != want) { fprintf(stderr, "harness: iv_for_j0\n"); exit(3); }
    Bytes aad = c.r.bytes(c.r.below(40)), pt = c.r.bytes(c.r.len(1200, 128));
    c.in(key), c.in(iv), c.in(pt);
    if (k == 4) c.tag("counter wraps modulo 2^32");
    else c.tag(fmt("counter carries %zu bytes", k));
    seal_check(c, ci, key, iv, aad, pt, "counter wrap");
    auto  r = gcmref::seal(ecb(ci), key, iv, aad, pt);
    auto  d = make(ci, GCM, false, true, key, iv, aad);
    Bytes p2;
    bool  threw;
    d->set_tag(r.tag.data());
    gcm_run(*d, c, r.ct, p2, threw);
    if (threw) c.fail("wrap-decrypt", "decryption over a counter wrap refused");
    else c.eq("wrap-decrypt", p2, pt, "decryption over a counter wrap");
});
VF_CASE("C08", "scales", 60, 0.3, 10, [](Ctx& c) {
    int    ci = (int)(c.idx % 4), w = (int)(c.idx / 4 % 3);
    size_t n  = c.r.scale(c.idx / 3, 10, 20);
    Bytes  key = c.r.bytes(KEYLEN[ci]), iv = c.r.bytes(w == 0 ? n : iv_len(c)), aad = c.r.bytes(w == 1 ? n : c.r.below(50)), pt = c.r.bytes(w == 2 ? n : c.r.below(80));
    c.in(key), c.in(iv), c.in(aad), c.in(pt);
    c.tag(w == 0 ? "long iv" : w == 1 ? "long aad" : "long message");
    seal_check(c, ci, key, iv, aad, pt, "scales");
}, 120);
VF_CASE("C08", "endurance", 6, 0.5, 4, [](Ctx& c) { // one object used very many times
    int    ci = (int)(c.idx % 4);
    size_t N  = 66000 + c.r.below(500), n = 0, w = 0, l = 77;
    Bytes  key = c.r.bytes(KEYLEN[ci]), iv = c.r.bytes(iv_len(c)), aad = c.r.bytes(c.r.below(40)), in = c.r.bytes(2 * N), out(2 * N + 64), t(16);
    c.in(key), c.in(iv), c.in(in);
    if (c.idx % 2 == 0)
    {
        auto o = make(ci, GCM, true, true, key, iv, aad);
        for (size_t i = 0; i < N; i++)
        {
            size_t k = c.r.below(3);
            o->base()->update(out.data() + w, &l, in.data() + n, k);
            n += k, w += l;
            if (w > n) { c.fail("outl", "GCM: %zu bytes reported of %zu", w, n); return; }
        }
        o->base()->do_final(out.data() + w, &l);
        in.resize(n), out.resize(n);
        o->get_tag(t.data());
        auto r = gcmref::seal(ecb(ci), key, iv, aad, in);
        c.eq("ciphertext", out, r.ct, fmt("GCM of %zu bytes in %zu updates", n, N));
        c.eq("tag", t, r.tag, fmt("GCM of %zu bytes in %zu updates, tag", n, N));
        c.tag("very many updates");
        return;
    }
    N /= 2;
    auto e = make(ci, GCM, true, true, key, iv, aad), d = make(ci, GCM, false, true, key, iv, aad);
    for (size_t i = 0; i < N && !c.failed; i++)
    {
        bool  chk = i % 64 == 0 || i + 200 > N;
        Bytes v(in.begin() + (long)i, in.begin() + (long)(i + 12)), p(in.begin() + (long)i, in.begin() + (long)(i + i % 50)), b(p.size()), q(p.size());
        e->init(key, v, aad);
        e->base()->do_final(b.data(), &l, p.data(), p.size());
        e->get_tag(t.data());
        if (chk)
        {
            auto r = gcmref::seal(ecb(ci), key, v, aad, p);
            c.eq("ciphertext", b, r.ct, fmt("GCM message %zu on one object", i));
            c.eq("tag", t, r.tag, fmt("GCM message %zu on one object, tag", i));
        }
        bool bad = i % 5 == 3, thr = false;
        if (bad) t[i % 16] ^= 4;
        d->init(key, v, aad);
        d->set_tag(t.data());
        try { d->base()->do_final(q.data(), &l, b.data(), b.size()); } catch (std::exception&) { thr = true; }
        if (thr != bad) c.fail("verdict", "GCM message %zu on one object: %s", i, thr ? "authentic one refused" : "forgery accepted");
        if (!thr) c.eq("plaintext", q, p, fmt("GCM message %zu on one object decrypted", i));
    }
    c.tag("very many messages on one object");
}, 120);
VF_CASE("C08", "big", 8, 0.25, 10, [](Ctx& c) {
    int    ci  = (int)(c.idx % 4);
    size_t n   = ((size_t)1 << 20) + c.r.below(200000) + (c.idx % 4 == 3 ? (size_t)1 << 22 : 0);
    Bytes  key = c.r.bytes(KEYLEN[ci]), iv = c.r.bytes(iv_len(c)), aad = c.r.bytes(c.r.below(70000)), pt = c.r.bytes(n);
    c.in(key), c.in(pt);
    c.tag("long message");
    seal_check(c, ci, key, iv, aad, pt, "long");
}, 240);
// bit lengths over 2^32 (and, in the accelerated build, byte lengths too)
VF_CASE("C08", "huge-aad", 2, 0, 2, [](Ctx& c) {
    bool simd = st().config == "simd";
    if (!simd && (c.idx || st().config != "port")) { c.nontrivial = false; return; }
    size_t n   = (simd && c.idx % 2 ? (size_t)1 << 32 : (size_t)1 << 29) + 16 * (1 + c.r.below(1000)) + c.r.below(16);
    size_t len = (n + 4095) / 4096 * 4096;
    u8*    a   = (u8*)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (a == MAP_FAILED) { c.nontrivial = false; return; }
    c.r.fill(a, 16);
    Bytes key = c.r.bytes(16), iv = c.r.bytes(12), pt = c.r.bytes(100), ct(pt.size());
    c.in(key), c.in(pt), c.in(n);
    size_t          l = 0, l2 = 0;
    aes::AES128GcmEncryptor e(key.data(), iv.data(), 12, a, n);
    e.update(ct.data(), &l, pt.data(), pt.size());
    e.do_final(ct.data() + l, &l2);
    Bytes tag(16);
    e.get_tag(tag.data());
    Bytes        H = gcmref::hkey("AES-128-ECB", key), J = gcmref::j0(H, iv);
    gcmref::Ghash g(H.data());
    // one nonzero block, then zero blocks only: y = a0 * h^blocks
    u128 y = gcmref::load(a), b = g.h;
    for (u64 k = (n + 15) / 16; k; k >>= 1)
    {
        if (k & 1) y = gcmref::mul(y, b);
        b = gcmref::mul(b, b);
    }
    g.y      = y;
    Bytes rc = gcmref::gctr("AES-128-ECB", key, iv, pt);
    g.blocks(rc.data(), rc.size());
    g.lens(n, rc.size());
    Bytes t = g.value(), k0 = ossl::crypt("AES-128-ECB", key, {}, J, 1);
    for (int i = 0; i < 16; i++) t[i] ^= k0[i];
    c.eq("huge-aad", ct, rc, fmt("ciphertext after %zu bytes of additional data", n));
    c.eq("huge-aad", tag, t, fmt("tag with %zu bytes of additional data", n));
    c.tag("aad over 512 MiB");
    munmap(a, len);
}, 400);
VF_CASE("C08", "huge-iv", 1, 0, 1, [](Ctx& c) {
    if (st().config != "simd") { c.nontrivial = false; return; }
    size_t n   = ((size_t)1 << 29) + 16 * (1 + c.r.below(1000)) + c.r.below(16);
    size_t len = (n + 4095) / 4096 * 4096;
    u8*    a   = (u8*)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (a == MAP_FAILED) { c.nontrivial = false; return; }
    c.r.fill(a, 16);
    Bytes key = c.r.bytes(16), pt = c.r.bytes(100), ct(pt.size()), H = gcmref::hkey("AES-128-ECB", key);
    c.in(key), c.in(pt), c.in(n);
    size_t          l = 0;
    aes::AES128GcmEncryptor e(key.data(), a, n, nullptr, 0);
    e.do_final(ct.data(), &l, pt.data(), pt.size());
    u128 y = gcmref::load(a), h = gcmref::load(H.data()), b = h;
    for (u64 k = (n + 15) / 16; k; k >>= 1)
    {
        if (k & 1) y = gcmref::mul(y, b);
        b = gcmref::mul(b, b);
    }
    y = gcmref::mul(y ^ (u128)((u64)n * 8), h);
    Bytes c1(16);
    gcmref::store(c1.data(), (y >> 32 << 32) | (u32)((u32)y + 1));
    c.eq("huge-iv", ct, gcmref::ctr("AES-128-ECB", key, c1, pt, true), fmt("ciphertext with an IV of %zu bytes", n));
    c.tag("iv over 512 MiB");
    munmap(a, len);
}, 200);
// more than 2^29 bytes of message (bit length over 2^32), and more than 2^32
static void huge_message(Ctx& c, bool open)
{
    if (st().config != "simd") { c.nontrivial = false; return; }
    size_t          W = (size_t)1 << 24, n = ((size_t)1 << (c.idx % 2 ? 32 : 29)) + W + c.r.below(100);
    Bytes           key = c.r.bytes(16), iv = c.r.bytes(12), aad = c.r.bytes(20), in = c.r.bytes(1000), o(W + 16), e(W + 16), tag(16), rt(16);
    EVP_CIPHER_CTX* x   = EVP_CIPHER_CTX_new();
    in.resize(W);
    for (size_t i = 1000; i < W; i++) in[i] = (u8)(in[i - 1000] + i);
    c.in(key), c.in(n);
    int  le;
    bool refused = false;
    EVP_CipherInit_ex2(x, ossl::cipher("AES-128-GCM"), key.data(), iv.data(), 1, nullptr);
    EVP_CipherUpdate(x, nullptr, &le, aad.data(), 20);
    aes::AES128GcmEncryptor g;
    aes::AES128GcmDecryptor d;
    if (open) d.init(key.data(), iv.data(), 12, aad.data(), 20);
    else g.init(key.data(), iv.data(), 12, aad.data(), 20);
    auto&  m    = open ? static_cast<block_cipher_mode::BlockCipherMode<16>&>(d) : g;
    for (size_t p = 0; p < n; p += W)
    {
        size_t k = std::min(W, n - p), l = 0;
        EVP_CipherUpdate(x, e.data(), &le, in.data(), (int)k);
        if (k < W)
        {
            EVP_CipherFinal_ex(x, rt.data(), &le);
            EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_GET_TAG, 16, rt.data());
            if (open) d.set_tag(rt.data());
        }
        const Bytes &from = open ? e : in, &to = open ? in : e;
        try
        {
            if (k == W) m.update(o.data(), &l, from.data(), k);
            else m.do_final(o.data(), &l, from.data(), k);
        }
        catch (std::exception&) { refused = true; break; }
        if (l != k || std::memcmp(o.data(), to.data(), k))
        {
            c.fail("huge-message", "GCM output wrong in the %zu bytes after offset %zu", k, p);
            break;
        }
    }
    EVP_CIPHER_CTX_free(x);
    if (refused) c.fail("huge-message", "%s message of %zu bytes refused", open ? "authentic" : "plain", n);
    else if (!open)
    {
        g.get_tag(tag.data());
        c.eq("huge-message", tag, rt, fmt("tag of a %zu-byte message", n));
    }
    c.tag(n >> 32 ? "message over 4 GiB" : "message over 512 MiB");
}
VF_CASE("C08", "huge-message", 2, 0, 2, [](Ctx& c) { huge_message(c, false); }, 300);
VF_CASE("C09", "huge-message", 2, 0, 2, [](Ctx& c) { huge_message(c, true); }, 300);

// ---------------------------------------------------------------- C09
struct Msg
{
    int   ci;
    Bytes key, iv, aad, pt;
    gcmref::Out r;
};
static Msg gen(Ctx& c, size_t maxpt, size_t maxaad)
{
    Msg m;
    m.ci  = (int)c.r.below(4);
    m.key = c.r.bytes(KEYLEN[m.ci]);
    m.iv  = c.r.bytes(iv_len(c));
    m.aad = c.r.bytes(c.r.chance(1, 4) ? 0 : c.r.below(maxaad + 1));
    m.pt  = c.r.bytes(c.r.chance(1, 10) ? 0 : c.r.len(maxpt, 16));
    m.r   = gcmref::seal(ecb(m.ci), m.key, m.iv, m.aad, m.pt);
    c.in(m.key), c.in(m.iv), c.in(m.aad), c.in(m.pt);
    return m;
}
// decrypts; checks the verdict
static void open_check(Ctx& c, modes::Obj& d, const Msg& m, const Bytes& ct, const Bytes& tag, bool good, const std::string& what)
{
    Bytes p;
    bool  threw;
    Buf   t(tag);
    if (c.r.chance(1, 2))
    { // the tag comes with or after the ciphertext
        if (c.r.chance(1, 2))
        {
            Buf o(c.r.renew(tag, c.r.bytes(16)));
            d.set_tag(o);
        }
        c.tag("tag given after part of the ciphertext");
        gcm_run(d, c, ct, p, threw, [&] { d.set_tag(t), t.drop(); });
    }
    else
    {
        d.set_tag(t), t.drop();
        gcm_run(d, c, ct, p, threw);
    }
    if (c.failed) return;
    if (good && threw) c.fail("authentic-refused", "%s-GCM authentic %zu-byte ciphertext (iv %zu, aad %zu) refused: %s", CIPHER_NAME[m.ci], ct.size(), m.iv.size(), m.aad.size(), what.c_str());
    if (!good && !threw) c.fail("forgery-accepted", "%s-GCM forgery accepted: %s (ciphertext %zu, iv %zu, aad %zu)", CIPHER_NAME[m.ci], what.c_str(), ct.size(), m.iv.size(), m.aad.size());
    if (good && !threw) c.eq("plaintext", p, m.pt, "decryption " + what);
}
static void flip(Ctx& c, Bytes& b)
{
    size_t i = c.r.below(b.size());
    b[i] ^= (u8)(1 << c.r.below(8));
}
VF_CASE("C09", "open", 16000, 0.1, 15, [](Ctx& c) {
    Msg  m = gen(c, c.r.chance(1, 30) ? 9000 : 400, 60);
    auto d = make(m.ci, GCM, false, c.r.chance(1, 2), m.key, m.iv, m.aad);
    open_check(c, *d, m, m.r.ct, m.r.tag, true, "first use");
    if (m.pt.size() % 16) c.tag("partial last block");
    // structured alterations, each on a fresh object or on the used one
    for (int k = 0; k < 12 && !c.failed; k++)
    {
        Msg         x   = m;
        Bytes       ct = m.r.ct, tag = m.r.tag;
        std::string w;
        switch (k)
        {
        case 0: flip(c, tag), w = "tag bit"; break;
        case 1: if (ct.empty()) continue; flip(c, ct), w = "ciphertext bit"; break;
        case 2: if (x.aad.empty()) continue; flip(c, x.aad), w = "aad bit"; break;
        case 3: flip(c, x.iv), w = "iv bit"; break;
        case 4: if (ct.empty()) continue; ct.resize(c.r.chance(1, 2) ? ct.size() - 1 : c.r.below(ct.size())), w = "ciphertext truncated"; break;
        case 5: ct.resize(ct.size() + (c.r.chance(1, 2) ? 1 : 1 + c.r.below(32)), 0), w = "zero bytes appended to ciphertext"; break;
        case 6: x.aad.resize(x.aad.size() + (c.r.chance(1, 2) ? 1 : 1 + c.r.below(32)), 0), w = "zero bytes appended to aad"; break;
        case 7: if (x.aad.empty()) continue; x.aad.resize(x.aad.size() - 1), w = "aad truncated"; break;
        case 8: { size_t b = c.r.below(16); tag[b] ^= (u8)(1 + c.r.below(255)); for (size_t i = b + 1; i < 16; i++) if (c.r.chance(1, 2)) tag[i] = (u8)c.r.next(); w = "tag bytes"; break; }
        case 9: std::swap(ct, x.aad), w = "aad and ciphertext exchanged"; if (ct == m.r.ct) continue; break;
        case 10: x.iv.push_back(0), w = "zero byte appended to iv"; break;
        case 11: x.iv = m.iv.size() == 12 ? gcmref::j0(gcmref::hkey(ecb(m.ci), m.key), m.iv) : Bytes(m.iv.begin(), m.iv.begin() + std::min<size_t>(12, m.iv.size())); if (x.iv == m.iv) continue; w = "initial counter or iv prefix as iv"; break;
        }
        c.tag(w);
        if (c.r.chance(1, 2)) d = make(x.ci, GCM, false, true, x.key, x.iv, x.aad);
        else d->init(x.key, x.iv, x.aad);
        open_check(c, *d, x, ct, tag, false, w);
    }
    if (c.failed) return;
    d->init(m.key, m.iv, m.aad);
    open_check(c, *d, m, m.r.ct, m.r.tag, true, "after refusals on the same object");
    c.sample(fmt("%s iv %zu aad %zu message %zu and 12 alterations", CIPHER_NAME[m.ci], m.iv.size(), m.aad.size(), m.pt.size()));
});
// long ciphertexts and long additional data, whole or with one altered bit far in
VF_CASE("C09", "scales", 48, 0.3, 10, [](Ctx& c) {
    Msg m = gen(c, 40, 24);
    (c.idx & 1 ? m.aad : m.pt) = c.r.bytes(c.r.scale(c.idx / 2, 12, 21));
    if (c.r.chance(1, 5)) m.iv = c.r.bytes(c.r.scale(c.r.below(8), 9, 16));
    m.r = gcmref::seal(ecb(m.ci), m.key, m.iv, m.aad, m.pt);
    c.in(m.aad.size()), c.in(m.pt.size());
    auto d = make(m.ci, GCM, false, c.r.chance(1, 2), m.key, m.iv, m.aad);
    open_check(c, *d, m, m.r.ct, m.r.tag, true, "long");
    for (int k = 0; k < 2; k++)
    {
        Msg   x  = m;
        Bytes ct = m.r.ct;
        Bytes& b = c.idx & 1 ? x.aad : ct;
        if (k) b.erase(b.begin() + (long)(b.size() - 1 - c.r.below(std::min<size_t>(b.size(), 300))));
        else flip(c, b);
        d->init(x.key, x.iv, x.aad);
        open_check(c, *d, x, ct, m.r.tag, false, k ? "one byte removed from a long input" : "one bit of a long input");
    }
    c.tag(c.idx & 1 ? "long additional data" : "long ciphertext");
}, 120);
// several bytes of the tag altered at once: every pair of bytes, words, halves
VF_CASE("C09", "tag-patterns", 200, 0.2, 10, [](Ctx& c) {
    Msg  m = gen(c, 40, 24);
    auto d = make(m.ci, GCM, false, true, m.key, m.iv, m.aad);
    auto tryone = [&](const Bytes& t, const std::string& w) {
        if (t == m.r.tag || c.failed) return;
        d->init(m.key, m.iv, m.aad);
        open_check(c, *d, m, m.r.ct, t, false, "tag with " + w);
    };
    for (size_t i = 0; i < 16; i++)
        for (size_t j = i + 1; j < 16; j++)
        {
            u8    x = c.r.chance(1, 2) ? (u8)(1 << c.r.below(8)) : (u8)(1 + c.r.below(255));
            Bytes t = m.r.tag;
            t[i] ^= x, t[j] ^= x;
            tryone(t, fmt("bytes %zu and %zu xored with %02x", i, j, x));
            t = m.r.tag, t[i] = (u8)(t[i] + x), t[j] = (u8)(t[j] - x);
            tryone(t, fmt("%02x moved from byte %zu to %zu", x, j, i));
        }
    for (int k = 0; k < 100; k++)
    {
        Bytes       t = m.r.tag;
        std::string w;
        if (tamper(c.r, t, 0, 16, w)) tryone(t, w);
    }
    for (size_t k = 1; k < 16; k++)
    { // only a prefix or only a suffix is right
        Bytes t = c.r.bytes(16), u = c.r.bytes(16);
        std::memcpy(t.data(), m.r.tag.data(), k), t[k] = (u8)~m.r.tag[k];
        std::memcpy(&u[k], &m.r.tag[k], 16 - k), u[k - 1] = (u8)~m.r.tag[k - 1];
        tryone(t, fmt("only %zu right bytes at the front", k)), tryone(u, fmt("only %zu right bytes at the end", 16 - k));
    }
    c.tag("tag altered in several places");
});
// every single bit of tag, ciphertext, aad and iv
VF_CASE("C09", "every-bit", 300, 0.1, 10, [](Ctx& c) {
    Msg m = gen(c, 50, 24);
    if (m.iv.size() > 40) { m.iv.resize(17); m.r = gcmref::seal(ecb(m.ci), m.key, m.iv, m.aad, m.pt); }
    auto d = make(m.ci, GCM, false, true, m.key, m.iv, m.aad);
    for (int part = 0; part < 4; part++)
    {
        Bytes  ct = m.r.ct, tag = m.r.tag;
        Msg    x = m;
        Bytes* b = part == 0 ? &tag : part == 1 ? &ct : part == 2 ? &x.aad : &x.iv;
        for (size_t i = 0; i < b->size() * 8 && !c.failed; i++)
        {
            (*b)[i / 8] ^= (u8)(1 << i % 8);
            d->init(x.key, x.iv, x.aad);
            open_check(c, *d, x, ct, tag, false, fmt("bit %zu of %s", i, part == 0 ? "tag" : part == 1 ? "ciphertext" : part == 2 ? "aad" : "iv"));
            (*b)[i / 8] ^= (u8)(1 << i % 8);
            c.tag("single-bit forgeries");
        }
    }
});
// several decryptors (and encryptors) at work at once in one thread
VF_CASE("C09", "interleaved", 6000, 0.1, 15, [](Ctx& c) {
    size_t             n = 2 + c.r.below(4);
    std::vector<Msg>   ms;
    std::vector<std::unique_ptr<modes::Obj>> d;
    std::vector<size_t> pos(n, 0), w(n, 0);
    std::vector<Bytes>  out(n);
    std::vector<int>    kind(n); // 0 decrypt good, 1 decrypt bad tag, 2 encrypt
    for (size_t i = 0; i < n; i++)
    {
        ms.push_back(gen(c, 120, 40));
        kind[i] = (int)c.r.below(3);
        d.push_back(make(ms[i].ci, GCM, kind[i] == 2, c.r.chance(1, 2), ms[i].key, ms[i].iv, ms[i].aad));
        out[i].resize(ms[i].pt.size() + 16);
        Bytes t = ms[i].r.tag;
        if (kind[i] == 1) flip(c, t);
        d[i]->set_tag(t.data());
    }
    std::vector<size_t> left;
    for (size_t i = 0; i < n; i++) left.push_back(i);
    while (!left.empty())
    {
        size_t  q = c.r.below(left.size()), i = left[q];
        const Bytes& in = kind[i] == 2 ? ms[i].pt : ms[i].r.ct;
        size_t  k = std::min<size_t>(in.size() - pos[i], c.r.below(50)), l = 9999;
        if (pos[i] + k < in.size() || c.r.chance(1, 3))
        {
            d[i]->base()->update(out[i].data() + w[i], &l, in.data() + pos[i], k);
            if (l > in.size() - w[i]) { c.fail("outl", "update reported %zu bytes", l); return; }
            pos[i] += k, w[i] += l;
            continue;
        }
        bool threw = false;
        try { d[i]->base()->do_final(out[i].data() + w[i], &l, in.data() + pos[i], k); }
        catch (std::exception&) { threw = true; }
        if (threw != (kind[i] == 1)) { c.fail("interleaved-verdict", "one of %zu interleaved objects: %s a%s ciphertext", n, threw ? "refused" : "accepted", kind[i] == 1 ? " forged" : "n authentic"); return; }
        out[i].resize(in.size());
        if (!threw) c.eq("interleaved", out[i], kind[i] == 2 ? ms[i].r.ct : ms[i].pt, "interleaved GCM objects");
        if (kind[i] == 2)
        {
            Bytes t(16);
            d[i]->get_tag(t.data());
            c.eq("interleaved-tag", t, ms[i].r.tag, "tag of interleaved GCM objects");
        }
        left.erase(left.begin() + q);
    }
    c.tag("interleaved objects", n);
});

// ---------------------------------------------------------------- C10
static Bytes gkey(Ctx& c)
{
    Bytes h = c.r.ebytes(16);
    if (c.r.chance(1, 5)) { h.assign(16, 0); h[c.r.below(16)] = (u8)(1 << c.r.below(8)); }
    return h;
}
VF_CASE("C10", "class", 30000, 0.1, 15, [](Ctx& c) {
    Bytes H = gkey(c), in;
    Buf   hb(H, c.r.below(8));
    std::unique_ptr<ghash::GHash> g(new ghash::GHash(hb.p()));
    hb.drop();
    c.in(H);
    std::string log;
    const char* prev = "fresh";
    for (int s = 0, n = 2 + (int)c.r.below(14); s < n && !c.failed; s++)
    {
        int op = (int)c.r.below(12);
        if (op < 6)
        {
            Bytes d = c.r.ebytes(c.r.len(c.r.chance(1, 8) ? 2000 : 100, 16));
            Buf   b(d, c.r.below(16));
            if (d.empty() && c.r.chance(1, 2)) g->update(nullptr, 0);
            else g->update(b, d.size());
            in.insert(in.end(), d.begin(), d.end());
            log += fmt(" update(%zu)", d.size());
            c.in(d);
            prev = "half-fed";
        }
        else if (op < 9)
        {
            Bytes d = c.r.bytes(c.r.chance(1, 2) ? 0 : c.r.below(40));
            if (c.r.chance(2, 3)) d.resize(d.size() + (16 - (in.size() + d.size()) % 16) % 16, 0x11);
            in.insert(in.end(), d.begin(), d.end());
            log += fmt(" final(%zu)", d.size());
            Buf  o(16, c.r.below(8)), b(d, c.r.below(4));
            bool threw = false;
            try
            {
                if (d.empty()) g->do_final(o);
                else g->do_final(o, b, d.size());
            }
            catch (std::exception&) { threw = true; }
            if (threw != (in.size() % 16 != 0)) c.fail("verdict", "GHASH of %zu bytes %s", in.size(), threw ? "refused" : "accepted");
            c.tag(threw ? "partial input refused" : "finalised");
            if (!threw)
            {
                gcmref::Ghash r(H.data());
                r.blocks(in.data(), in.size());
                c.eq("value", o.bytes(), r.value(), fmt("GHASH of %zu bytes, key %s, after%s", in.size(), hex(H).c_str(), log.c_str()));
                c.out(o.bytes());
            }
            if (!o.ok()) c.fail("overwrite", "GHASH wrote outside 16 bytes");
            // start again
            if (c.r.chance(1, 2)) g->reset(), log += " reset";
            else { H = c.r.renew(H, gkey(c)); Buf k(H, c.r.below(8)); g->set_key(k); log += " set_key"; }
            in.clear();
            c.tag(threw ? "restart after refusal" : "restart after result");
        }
        else if (op == 9) { g->reset(); in.clear(); log += " reset"; c.tag(std::string("reset when ") + prev); }
        else if (op == 10) { H = c.r.renew(H, gkey(c)); Buf k(H, c.r.below(8)); g->set_key(k); in.clear(); log += " set_key"; c.tag(std::string("set_key when ") + prev); }
        else { std::unique_ptr<ghash::GHash> n2(new ghash::GHash(*g)); u8 j[40] = {1, 2, 3}; g->update(j, 37); g = std::move(n2); log += " copy"; }
    }
    c.sample(log);
});
VF_CASE("C10", "endurance", 4, 0.5, 4, [](Ctx& c) {
    size_t N = 66000 + c.r.below(500), n = 0;
    Bytes  H = gkey(c), m = c.r.bytes(3 * N), o(16);
    ghash::GHash g(H.data());
    for (size_t i = 0; i < N; i++) { size_t k = c.r.below(4); g.update(m.data() + n, k); n += k; }
    size_t k = (16 - n % 16) % 16;
    g.do_final(o.data(), m.data() + n, k);
    m.resize(n + k);
    gcmref::Ghash r(H.data());
    r.blocks(m.data(), m.size());
    c.in(H), c.in(m);
    c.eq("value", o, r.value(), fmt("GHASH of %zu bytes in %zu updates", n + k, N));
    for (size_t i = 0; i < N && !c.failed; i++)
    {
        Bytes h(m.begin() + (long)i, m.begin() + (long)(i + 16));
        if (i & 1) g.reset(); else g.set_key(h.data()), H = h;
        g.update(h.data(), i % 17);
        if (i % 32 && i + 200 < N) continue;
        g.do_final(o.data(), m.data(), 16 - i % 17 % 16);
        Bytes x(h.begin(), h.begin() + (long)(i % 17));
        x.insert(x.end(), m.begin(), m.begin() + (long)(16 - i % 17 % 16));
        gcmref::Ghash q(H.data());
        q.blocks(x.data(), x.size());
        c.eq("value", o, q.value(), fmt("GHASH message %zu on one object", i));
    }
    c.tag("very many uses of one object");
}, 120);
VF_CASE("C10", "scales", 60, 0.3, 10, [](Ctx& c) {
    size_t n = c.r.scale(c.idx, 10, 22), p = 0;
    n -= n % 16;
    Bytes  H = gkey(c), m = c.r.bytes(n);
    c.in(H), c.in(n);
    Buf          hb(H, c.r.below(8));
    ghash::GHash g(hb.p());
    hb.drop();
    std::string  w = fmt("GHASH of %zu bytes in pieces", n);
    for (size_t k : c.r.lumps(n, 16)) { Buf b(m.data() + p, k, c.r.below(16)); g.update(b, k); p += k; w += fmt(" %zu", k); }
    Buf o(16, c.r.below(8));
    g.do_final(o);
    gcmref::Ghash r(H.data());
    r.blocks(m.data(), n);
    c.eq("value", o.bytes(), r.value(), w);
    c.tag("long input");
}, 120);
template <class X, class I, class U, class F, class R>
static void gimpl(Ctx& c, const char* nm, I init, U upd, F fin, R rst, const Bytes& H, const Bytes& in, const Bytes& exp)
{
    X* x = new X;
    std::memset((void*)x, 0x5a, sizeof *x);
    Buf hb(H, c.r.below(8));
    init(x, hb);
    hb.drop();
    if (c.r.chance(1, 2)) { u8 j[48] = {9, 8, 7}; upd(x, j, 3); rst(x); c.tag("implementation reset"); }
    size_t n = in.size() / 16, a = c.r.below(n + 1);
    Buf    b1(in.data(), 16 * a, c.r.below(16)), b2(in.data() + 16 * a, 16 * (n - a), c.r.below(16)), o(16, c.r.below(8));
    upd(x, b1, a);
    upd(x, b2, n - a);
    int e = fin(x, o, nullptr, 0);
    if (e) c.fail("impl-error", "%s refused %zu blocks", nm, n);
    c.eq(nm, o.bytes(), exp, fmt("GHASH %s of %zu blocks, key %s", nm, n, hex(H).c_str()));
    if (!o.ok()) c.fail("overwrite", "%s wrote outside the digest", nm);
    c.tag(std::string("implementation ") + nm);
    delete x;
}
#define GIMPL(NS) gimpl<ghash::internal::NS::GHashCTX>(c, #NS, ghash::internal::NS::ghash_init, ghash::internal::NS::ghash_update_blocks, ghash::internal::NS::ghash_final_block, ghash::internal::NS::ghash_reset, H, in, e)
VF_CASE("C10", "implementations", 15000, 0.15, 15, [](Ctx& c) {
    Bytes H = gkey(c), in = c.r.ebytes(16 * (c.idx < 40 ? c.idx : c.r.below(c.r.chance(1, 20) ? 300 : 12)));
    c.in(H), c.in(in);
    gcmref::Ghash r(H.data());
    r.blocks(in.data(), in.size());
    Bytes e = r.value();
    GIMPL(common);
    GIMPL(lut256);
#if defined(CPU_FLAG_PCLMUL) && defined(CPU_FLAG_SSE2)
    GIMPL(pclmul);
#endif
});
// single-bit times single-bit products: the whole multiplication table basis
VF_CASE("C10", "basis", 128, 1, 1, [](Ctx& c) {
    Bytes H(16, 0), in(16, 0);
    H[c.idx / 8] = (u8)(0x80 >> c.idx % 8);
    c.in(H);
    for (int i = 0; i < 128; i++)
    {
        in.assign(16, 0);
        in[i / 8] = (u8)(0x80 >> i % 8);
        Bytes e(16);
        gcmref::store(e.data(), gcmref::mul(gcmref::load(H.data()), gcmref::load(in.data())));
        GIMPL(common);
        GIMPL(lut256);
#if defined(CPU_FLAG_PCLMUL) && defined(CPU_FLAG_SSE2)
        GIMPL(pclmul);
#endif
    }
});
VF_REQ("C08", "in place", "iv 12", "iv partial blocks", "iv whole blocks", "no aad", "no message", "neither", "counter wraps modulo 2^32", "counter carries 1 bytes", "counter carries 3 bytes", "aad over 512 MiB", "iv over 512 MiB", "message over 512 MiB", "message over 4 GiB", "long message");
VF_REQ("C09", "tag given after part of the ciphertext", "tag altered in several places", "in place", "tag bit", "ciphertext bit", "aad bit", "iv bit", "ciphertext truncated", "aad truncated", "partial last block", "interleaved objects", "single-bit forgeries", "message over 4 GiB");
VF_REQ("C10", "implementation common", "implementation lut256", "implementation pclmul", "partial input refused", "restart after refusal", "reset when half-fed", "set_key when half-fed");
VF_MAIN
