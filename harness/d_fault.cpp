// C29: random sources that fail, in every operation that draws
#include "hookhash.h"
#include "sm2ref.h"
#include "sm9ref.h"
#include "script_rng.h"
#include <gmlib/sm2/sm2.h>
#include <gmlib/sm3/sm3.h>
#include <gmlib/sm9/sm9.h>
using namespace vf;
typedef sm3::SM3 SM3;
template <class H> struct Ref { static Bytes f(const Bytes& b) { return ossl::sm3(b); } };
template <size_t D> struct Ref<HookHash<D>> { static Bytes f(const Bytes& b) { return HookHash<D>::eval(b); } };

// fails at one draw, having delivered nothing, a part or all of it
struct FaultRng : rng::Rng
{
    std::vector<Bytes> script;
    size_t             pos = 0;
    long               fail_at = -1;
    size_t             partial = 0; // bytes delivered of the failing draw
    int                kind = 0;    // type of the error
    bool               ran_out = false;
    const char* name() const override { return "FaultRng"; }
    void        gen(void* out, std::size_t len) override
    {
        size_t i = pos++;
        Bytes  d = i < script.size() ? script[i] : Bytes(len, 0x5c);
        d.resize(len, 0x5c);
        if ((long)i == fail_at)
        {
            if (len) std::memcpy(out, d.data(), std::min(partial, len));
            switch (kind)
            {
            case 0: throw RngFailure();
            case 1: throw (int)77;
            default: throw std::bad_alloc();
            }
        }
        if (i >= script.size()) { ran_out = true; throw RngFailure(); }
        if (len) std::memcpy(out, d.data(), len);
    }
};
// runs f; true if it raised exactly the error of the source
template <class Fn> static bool fails(FaultRng& g, Fn f)
{
    try { f(); }
    catch (RngFailure&) { return g.kind == 0; }
    catch (int e) { return g.kind == 1 && e == 77; }
    catch (std::bad_alloc&) { return g.kind == 2; }
    catch (std::exception&) { return false; }
    return false;
}
static void arm(Rnd& r, FaultRng& g, size_t at)
{
    g.fail_at = (long)at;
    g.kind    = (int)r.below(3);
    g.partial = r.pick({(size_t)0, (size_t)1, (size_t)31, (size_t)32, (size_t)r.below(33)});
    while (g.script.size() <= at) g.script.push_back(r.bytes(32));
    // what a failing source leaves behind is often degenerate
    if (r.chance(1, 2)) g.script[at].assign(32, r.pick({(u8)0, (u8)0xff, (u8)1}));
}
static std::string how(const FaultRng& g) { return fmt("(failure at draw %ld after %zu bytes)", g.fail_at, g.partial); }

// ------------------------------------------------------------------ SM2
namespace s2 = sm2r;
template <class H> using Prv2 = sm2::SM2PrivateKey<H>;
template <class H> using Pub2 = sm2::SM2PublicKey<H>;
static sm2::SM2EcPC pc2(int f) { return f == 0 ? sm2::SM2EcPC::UNCOMPRESSED : f == 1 ? sm2::SM2EcPC::COMPRESSED : sm2::SM2EcPC::MIX; }
template <class H> static void check2(Ctx& c, const Prv2<H>& k, const Z& d, const std::string& when)
{
    s2::Pt P = s2::mulg(d);
    Bytes  a(32), b(64);
    k.get_priv(a.data());
    c.eq("sm2-key-kept", a, d.to(32), "SM2 private key " + when);
    k.fetch_pub().get_pub(b.data(), b.data() + 32);
    c.eq("sm2-pub-kept", b, P.xy(), "SM2 public half " + when);
}
template <class H> static void work2(Ctx& c, const Prv2<H>& k, const Pub2<H>* pub, const Z& d, const std::string& when)
{
    using namespace s2;
    Pt P = mulg(d);
    if (c.r.chance(1, 2))
    {
        Bytes    m = c.r.bytes(c.r.below(50)), id = c.r.bytes(c.r.below(20));
        FaultRng g;
        g.script.push_back(c.r.bytes(32));
        Z kk = draw_k(g.script[0]), e = msg_e(Ref<H>::f, id, P, m), r, s;
        if (!sign1(d, e, kk, r, s)) return;
        Buf o(64);
        k.sign(o, m.data(), m.size(), g, id.data(), id.size());
        c.eq("sm2-sign-after", o.bytes(), cat({r.to(32), s.to(32)}), "SM2 signature " + when);
        if (g.pos != 1) c.fail("sm2-stale", "SM2 signature %s made %zu draws instead of one", when.c_str(), g.pos);
        if (!k.verify(o, m.data(), m.size(), id.data(), id.size())) c.fail("sm2-verify-after", "own signature refused %s", when.c_str());
    }
    else
    {
        Bytes    m = c.r.bytes(1 + c.r.below(50)), e;
        int      f = (int)c.r.below(3);
        FaultRng g;
        g.script.push_back(c.r.bytes(32));
        if (!enc1(Ref<H>::f, P, m, draw_k(g.script[0]), f, e)) return;
        Buf    o(e.size());
        size_t ol = 0;
        if (pub) pub->encrypt(o, &ol, m.data(), m.size(), g, pc2(f));
        else k.encrypt(o, &ol, m.data(), m.size(), g, pc2(f));
        if (ol != e.size()) { c.fail("sm2-enc-after", "SM2 ciphertext length %zu %s", ol, when.c_str()); return; }
        c.eq("sm2-enc-after", o.bytes(), e, "SM2 ciphertext " + when);
        if (g.pos != 1) c.fail("sm2-stale", "SM2 encryption %s made %zu draws instead of one", when.c_str(), g.pos);
        Buf    p(m.size());
        size_t pl = 0;
        k.decrypt(p, &pl, o, ol);
        if (pl != m.size()) c.fail("sm2-dec-after", "plaintext length %zu %s", pl, when.c_str());
        else c.eq("sm2-dec-after", p.bytes(), m, "SM2 plaintext " + when);
    }
}
VF_CASE("C29", "sm2-history", 600, 0.15, 20, [](Ctx& c) {
    using namespace s2;
    Prv2<SM3> k;
    Z         d = rndscalar(c.r) % (n() - Z(2)) + Z(1);
    k.set_priv(d.to(32).data());
    Pub2<SM3> pub = k.fetch_pub();
    Pt        PP = mulg(d); // of pub
    Z         pd = d;
    c.in(d.to(32));
    int steps = 3 + (int)c.r.below(6);
    std::string hist;
    for (int i = 0; i < steps; i++)
    {
        FaultRng g;
        int      op = (int)c.r.below(9);
        c.in((u64)op);
        Bytes m = c.r.bytes(c.r.below(60)), id = c.r.bytes(c.r.below(20));
        switch (op)
        {
        case 0:
            arm(c.r, g, 0);
            if (!fails(g, [&] { k.gen_priv(g); })) c.fail("sm2-gen-error-lost", "SM2 key generation returned %s", how(g).c_str());
            c.tag("SM2 key generation failed");
            hist += " gen!";
            check2(c, k, d, "after a failed key generation " + how(g));
            work2<SM3>(c, k, nullptr, d, "after a failed key generation " + how(g));
            break;
        case 1:
        {
            arm(c.r, g, 0);
            if (!fails(g, [&] { Prv2<SM3> t(g); (void)t; })) c.fail("sm2-gen-error-lost", "SM2 key construction returned %s", how(g).c_str());
            c.tag("SM2 key construction failed");
            hist += " new!";
            break;
        }
        case 2:
        {
            g.script.push_back(c.r.bytes(32));
            k.gen_priv(g);
            d = Z::bytes(g.script[0]) % (n() - Z(2)) + Z(1);
            hist += " gen";
            check2(c, k, d, "after key generation, history" + hist);
            break;
        }
        case 3:
        case 4:
        {
            arm(c.r, g, 0);
            Buf o(64);
            if (!fails(g, [&] { k.sign(o, m.data(), m.size(), g, id.data(), id.size()); })) c.fail("sm2-sign-error-lost", "SM2 signing returned %s", how(g).c_str());
            if (!o.ok()) c.fail("overrun", "failed SM2 signing wrote outside the signature");
            c.tag("SM2 signing failed");
            hist += " sign!";
            check2(c, k, d, "after a failed signature " + how(g));
            work2<SM3>(c, k, nullptr, d, "after a failed signature " + how(g));
            break;
        }
        case 5:
        case 6:
        {
            arm(c.r, g, 0);
            int f = (int)c.r.below(3);
            m.push_back(1);
            Buf    o((f == 1 ? 33 : 65) + 32 + m.size());
            size_t ol = 0;
            bool   onpub = c.r.chance(1, 2);
            if (!fails(g, [&] { if (onpub) pub.encrypt(o, &ol, m.data(), m.size(), g, pc2(f)); else k.encrypt(o, &ol, m.data(), m.size(), g, pc2(f)); }))
                c.fail("sm2-enc-error-lost", "SM2 encryption returned %s", how(g).c_str());
            if (!o.ok()) c.fail("overrun", "failed SM2 encryption wrote outside the ciphertext");
            c.tag("SM2 encryption failed");
            hist += " enc!";
            Bytes b(64);
            pub.get_pub(b.data(), b.data() + 32);
            c.eq("sm2-pub-kept", b, PP.xy(), "SM2 public key after a failed encryption " + how(g));
            check2(c, k, d, "after a failed encryption " + how(g));
            if (pd == d) work2<SM3>(c, k, &pub, d, "after a failed encryption " + how(g));
            break;
        }
        case 7:
        {
            Bytes bad = c.r.chance(1, 2) ? Bytes(32, 0) : (n() - Z(c.r.below(2))).to(32);
            bool  t   = false;
            try { k.set_priv(bad.data()); } catch (std::runtime_error&) { t = true; }
            if (!t) c.fail("sm2-set-bad", "invalid private key %s accepted", hex(bad).c_str());
            check2(c, k, d, "after a refused key");
            hist += " set!";
            break;
        }
        default:
            work2<SM3>(c, k, nullptr, d, "in history" + hist);
            hist += " use";
        }
    }
    c.sample("d = " + d.str() + ":" + hist);
});
// the source fails after draws that had to be repeated
template <size_t D> static void retry2(Ctx& c)
{
    using namespace s2;
    typedef HookHash<D> H;
    Z      d = rndscalar(c.r) % (n() - Z(2)) + Z(1);
    Pt     P = mulg(d);
    Prv2<H> k(d.to(32).data());
    size_t bad = 1 + c.r.below(4), at = c.r.below(bad + 1);
    c.in(d.to(32)), c.in(bad), c.in(at);
    if (c.r.chance(1, 2))
    {
        Z kk = rndscalar(c.r);
        Pt K = mulg(kk);
        int kind = (int)c.r.below(3);
        Z e = kind == 0 ? (n() - K.x % n()) % n() : kind == 1 ? (n() + n() - kk - K.x % n()) % n() : (mulmod(kk, invmod(d, n()), n()) + n() - K.x % n()) % n();
        if (D < 32) return;
        Bytes dig = e.to(D), m = c.r.bytes(c.r.below(50)), id = c.r.bytes(c.r.below(20));
        Bytes zm = cat({za(HookHash<D>::eval, id, P), m});
        HookGuard hg([=](const Bytes& in, u8* out) { if (in != zm) return false; std::memcpy(out, dig.data(), D); return true; });
        FaultRng g;
        for (size_t i = 0; i < bad; i++) g.script.push_back((kk - Z(1)).to(32));
        g.script.push_back(c.r.bytes(32));
        auto ok = g.script;
        arm(c.r, g, at);
        Buf o(64);
        if (!fails(g, [&] { k.sign(o, m.data(), m.size(), g, id.data(), id.size()); }))
            c.fail("sm2-sign-error-lost", "SM2 signing (%zu inadmissible draws first) returned %s", bad, how(g).c_str());
        if (g.pos != at + 1) c.fail("sm2-draws", "SM2 signing made %zu draws, the error was at draw %zu", g.pos, at);
        check2(c, k, d, "after a failed signature " + how(g));
        if (at) c.tag("SM2 signing failed at a repeated draw");
        FaultRng h;
        h.script = ok;
        Z r, s;
        if (!sign1(d, e, draw_k(ok.back()), r, s)) return;
        k.sign(o, m.data(), m.size(), h, id.data(), id.size());
        c.eq("sm2-sign-after", o.bytes(), cat({r.to(32), s.to(32)}), "SM2 signature after a failed one " + how(g));
        if (h.pos != bad + 1) c.fail("sm2-stale", "SM2 signature after a failed one made %zu draws, %zu needed", h.pos, bad + 1);
    }
    else
    {
        Bytes    m = c.r.bytes(1 + c.r.below(40));
        FaultRng g;
        std::vector<Bytes> zs;
        for (size_t i = 0; i <= bad; i++)
        {
            g.script.push_back(c.r.bytes(32));
            if (i < bad) zs.push_back(mul(draw_k(g.script[i]), P).xy());
        }
        HookGuard hg([=](const Bytes& in, u8* out) {
            if (in.size() != 68) return false;
            Bytes z(in.begin(), in.begin() + 64);
            for (auto& t : zs) if (t == z) { std::memset(out, 0, D); return true; }
            return false;
        });
        auto ok = g.script;
        arm(c.r, g, at);
        int    f = (int)c.r.below(3);
        Buf    o((f == 1 ? 33 : 65) + D + m.size());
        size_t ol = 0;
        if (!fails(g, [&] { k.encrypt(o, &ol, m.data(), m.size(), g, pc2(f)); }))
            c.fail("sm2-enc-error-lost", "SM2 encryption (%zu inadmissible draws first) returned %s", bad, how(g).c_str());
        if (g.pos != at + 1) c.fail("sm2-draws", "SM2 encryption made %zu draws, the error was at draw %zu", g.pos, at);
        if (!o.ok()) c.fail("overrun", "failed SM2 encryption wrote outside the ciphertext");
        check2(c, k, d, "after a failed encryption " + how(g));
        if (at) c.tag("SM2 encryption failed at a repeated draw");
        FaultRng h;
        h.script = ok;
        Bytes e;
        if (!enc1(HookHash<D>::eval, P, m, draw_k(ok.back()), f, e)) return;
        k.encrypt(o, &ol, m.data(), m.size(), h, pc2(f));
        if (ol != e.size()) c.fail("sm2-enc-after", "SM2 ciphertext length %zu", ol);
        else c.eq("sm2-enc-after", o.bytes(), e, "SM2 ciphertext after a failed one " + how(g));
        if (h.pos != bad + 1) c.fail("sm2-stale", "SM2 encryption after a failed one made %zu draws, %zu needed", h.pos, bad + 1);
    }
}
VF_CASE("C29", "sm2-retry", 600, 0.15, 20, [](Ctx& c) {
    switch (c.idx % 3)
    {
    case 0: retry2<32>(c); break;
    case 1: retry2<48>(c); break;
    default: retry2<64>(c); break;
    }
});
VF_REQ("C29", "SM2 key generation failed", "SM2 key construction failed", "SM2 signing failed", "SM2 encryption failed",
       "SM2 signing failed at a repeated draw", "SM2 encryption failed at a repeated draw");

// ------------------------------------------------------------------ SM9
namespace s9 = sm9r;
template <class H> using MPrv = sm9::SM9SignMasterPrivateKey<H>;
template <class H> using MPub = sm9::SM9SignMasterPublicKey<H>;
template <class H> using UPrv = sm9::SM9SignPrivateKey<H>;
static sm9::SM9EcPC pc9(int f) { return f == 0 ? sm9::SM9EcPC::UNCOMPRESSED : f == 1 ? sm9::SM9EcPC::COMPRESSED : sm9::SM9EcPC::MIX; }
template <class H> static Z hn(u8 tag, const Bytes& z)
{
    using namespace s9;
    Bytes ha;
    for (u8 ct = 1; ha.size() < 40; ct++)
    {
        Bytes d = Ref<H>::f(cat({{tag}, z, {0, 0, 0, ct}}));
        ha.insert(ha.end(), d.begin(), d.end());
    }
    return Z::bytes(ha.data(), 40) % (n() - Z(1)) + Z(1);
}
static Z draw9(const Bytes& d) { return Z::bytes(d) % (s9::n() - Z(1)) + Z(1); }
struct U9 { Z ks, t2; Bytes id; u8 hid; };
template <class H> static bool user9(U9& u)
{
    using namespace s9;
    Z t1 = (hn<H>(1, cat({u.id, {u.hid}})) + u.ks) % n();
    if (t1.zero()) return false;
    u.t2 = mulmod(u.ks, invmod(t1, n()), n());
    return true;
}
template <class H> static Bytes sig9(const U9& u, const Bytes& m, const Bytes& d, int f)
{
    using namespace s9;
    Z r = draw9(d), h = hn<H>(2, cat({m, enc12(gpow(mulmod(u.ks, r, n())))})), l = (r - h) % n();
    if (l.zero()) return {};
    return cat({h.to(32), enc(mulg1(mulmod(l, u.t2, n())), f)});
}
template <class H> static void check9(Ctx& c, const MPrv<H>& k, const Z& ks, const std::string& when)
{
    Bytes a(32), b(128);
    k.get_priv(a.data());
    c.eq("sm9-master-kept", a, ks.to(32), "SM9 master key " + when);
    k.fetch_SignPublicKey().get_pub(b.data(), b.data() + 64);
    c.eq("sm9-pub-kept", b, s9::mulg2(ks).xy(), "SM9 master public key " + when);
}
template <class H> static void checku9(Ctx& c, const UPrv<H>& k, const U9& u, const std::string& when)
{
    Bytes a(64), b(128);
    k.get_priv(a.data(), a.data() + 32, b.data(), b.data() + 64);
    c.eq("sm9-user-kept", a, s9::mulg1(u.t2).xy(), "SM9 user key " + when);
    c.eq("sm9-pub-kept", b, s9::mulg2(u.ks).xy(), "SM9 public half of the user key " + when);
}
template <class H> static void work9(Ctx& c, const UPrv<H>& k, const U9& u, const std::string& when)
{
    Bytes    m = c.r.bytes(c.r.below(50));
    int      f = (int)c.r.below(3);
    FaultRng g;
    g.script.push_back(c.r.bytes(32));
    Bytes e = sig9<H>(u, m, g.script[0], f);
    if (e.empty()) return;
    Buf    o(e.size());
    size_t ol = 0;
    k.sign(o, &ol, m.data(), m.size(), g, pc9(f));
    if (ol != e.size()) { c.fail("sm9-sign-after", "SM9 signature length %zu %s", ol, when.c_str()); return; }
    c.eq("sm9-sign-after", o.bytes(), e, "SM9 signature " + when);
    if (g.pos != 1) c.fail("sm9-stale", "SM9 signature %s made %zu draws instead of one", when.c_str(), g.pos);
    if (!k.verify(o, ol, m.data(), m.size(), u.id.data(), u.id.size(), u.hid)) c.fail("sm9-verify-after", "own signature refused %s", when.c_str());
}
VF_CASE("C29", "sm9-history", 90, 0.15, 25, [](Ctx& c) {
    using namespace s9;
    selfcheck();
    Z         ks = rndscalar(c.r);
    MPrv<SM3> mk;
    mk.set_priv(ks.to(32).data());
    U9 u{ks, Z(0), c.r.bytes(c.r.below(20)), 1};
    if (!user9<SM3>(u)) return;
    FaultRng  dead;
    UPrv<SM3> uk = mk.gen_SignPrivateKey(u.id.data(), u.id.size(), dead, 1);
    c.in(ks.to(32)), c.in(u.id);
    int steps = 2 + (int)c.r.below(3);
    std::string hist;
    for (int i = 0; i < steps; i++)
    {
        FaultRng g;
        int      op = (int)c.r.below(6);
        c.in((u64)op);
        switch (op)
        {
        case 0:
            arm(c.r, g, 0);
            if (!fails(g, [&] { mk.gen_priv(g); })) c.fail("sm9-gen-error-lost", "SM9 key generation returned %s", how(g).c_str());
            c.tag("SM9 key generation failed");
            hist += " gen!";
            check9(c, mk, ks, "after a failed key generation " + how(g));
            { // it still issues keys that work
                U9 v{ks, Z(0), c.r.bytes(5), 1};
                if (!user9<SM3>(v)) break;
                UPrv<SM3> t = mk.gen_SignPrivateKey(v.id.data(), v.id.size(), dead, 1);
                checku9(c, t, v, "issued after a failed key generation " + how(g));
                work9<SM3>(c, t, v, "with a user key issued after a failed key generation " + how(g));
            }
            break;
        case 1:
            arm(c.r, g, 0);
            if (!fails(g, [&] { MPrv<SM3> t(g); (void)t; })) c.fail("sm9-gen-error-lost", "SM9 key construction returned %s", how(g).c_str());
            c.tag("SM9 key construction failed");
            hist += " new!";
            break;
        case 2:
            g.script.push_back(c.r.bytes(32));
            mk.gen_priv(g);
            ks = draw9(g.script[0]);
            hist += " gen";
            check9(c, mk, ks, "after key generation, history" + hist);
            checku9(c, uk, u, "after its master key object was re-keyed");
            break;
        default:
        {
            arm(c.r, g, 0);
            Bytes  m = c.r.bytes(c.r.below(50));
            int    f = (int)c.r.below(3);
            Buf    o(f == 1 ? 65 : 97);
            size_t ol = 0;
            if (!fails(g, [&] { uk.sign(o, &ol, m.data(), m.size(), g, pc9(f)); })) c.fail("sm9-sign-error-lost", "SM9 signing returned %s", how(g).c_str());
            if (!o.ok()) c.fail("overrun", "failed SM9 signing wrote outside the signature");
            c.tag("SM9 signing failed");
            hist += " sign!";
            checku9(c, uk, u, "after a failed signature " + how(g));
            work9<SM3>(c, uk, u, "after a failed signature " + how(g));
        }
        }
    }
    c.sample("ks = " + ks.str() + ":" + hist);
});
VF_CASE("C29", "sm9-retry", 80, 0.15, 25, [](Ctx& c) {
    using namespace s9;
    selfcheck();
    typedef HookHash<32> H;
    U9 u{rndscalar(c.r), Z(0), c.r.bytes(c.r.below(20)), 1};
    Bytes m = c.r.bytes(c.r.below(40));
    FaultRng g;
    size_t bad = 1 + c.r.below(2), at = c.r.below(bad + 1);
    g.script.push_back(c.r.bytes(32));
    while (g.script.size() < bad) g.script.push_back(g.script[0]);
    g.script.push_back(c.r.bytes(32));
    Z x2 = draw9(g.script[0]);
    c.in(u.ks.to(32)), c.in(m), c.in(at), c.in(bad);
    HookGuard hg([&](const Bytes& in, u8* o) {
        if (in[0] != 2) return false;
        Bytes ha = (x2 - Z(1)).to(40);
        ha.resize(72, 0x77);
        std::memcpy(o, &ha[(in.back() - 1) * 32], 32);
        return true;
    });
    if (!user9<H>(u)) return;
    MPrv<H>  mk(u.ks.to(32).data());
    FaultRng dead;
    UPrv<H>  uk = mk.gen_SignPrivateKey(u.id.data(), u.id.size(), dead, 1);
    auto ok = g.script;
    arm(c.r, g, at);
    int    f = (int)c.r.below(3);
    Buf    o(f == 1 ? 65 : 97);
    size_t ol = 0;
    if (!fails(g, [&] { uk.sign(o, &ol, m.data(), m.size(), g, pc9(f)); }))
        c.fail("sm9-sign-error-lost", "SM9 signing (%zu inadmissible draws first) returned %s", bad, how(g).c_str());
    if (g.pos != at + 1) c.fail("sm9-draws", "SM9 signing made %zu draws, the error was at draw %zu", g.pos, at);
    if (at) c.tag("SM9 signing failed at a repeated draw");
    checku9(c, uk, u, "after a failed signature " + how(g));
    FaultRng h;
    h.script = ok;
    Bytes e = sig9<H>(u, m, ok.back(), f);
    if (e.empty()) return;
    uk.sign(o, &ol, m.data(), m.size(), h, pc9(f));
    if (ol != e.size()) c.fail("sm9-sign-after", "SM9 signature length %zu", ol);
    else c.eq("sm9-sign-after", o.bytes(), e, "SM9 signature after a failed one " + how(g));
    if (h.pos != bad + 1) c.fail("sm9-stale", "SM9 signature after a failed one made %zu draws, %zu needed", h.pos, bad + 1);
});
VF_REQ("C29", "SM9 key generation failed", "SM9 key construction failed", "SM9 signing failed", "SM9 signing failed at a repeated draw");
VF_MAIN
