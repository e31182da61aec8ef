// C26, C27: SM9 signing and verification
#include "hookhash.h"
#include "sm9ref.h"
#include <gmlib/sm3/sm3.h>
#include <gmlib/sm9/sm9.h>
using namespace vf;
using namespace sm9r;
typedef sm3::SM3 SM3;
template <class H> struct Ref { static Bytes f(const Bytes& b) { return ossl::sm3(b); } };
template <size_t D> struct Ref<HookHash<D>> { static Bytes f(const Bytes& b) { return HookHash<D>::eval(b); } };
template <class H> using MPrv = sm9::SM9SignMasterPrivateKey<H>;
template <class H> using MPub = sm9::SM9SignMasterPublicKey<H>;
template <class H> using UPrv = sm9::SM9SignPrivateKey<H>;

template <class H> static Z hn(u8 tag, const Bytes& z)
{
    Bytes ha;
    for (u8 ct = 1; ha.size() < 40; ct++)
    {
        Bytes d = Ref<H>::f(cat({{tag}, z, {0, 0, 0, ct}}));
        ha.insert(ha.end(), d.begin(), d.end());
    }
    return Z::bytes(ha.data(), 40) % (n() - Z(1)) + Z(1);
}
template <class H> static Z h1(const Bytes& id, u8 hid) { return hn<H>(1, cat({id, {hid}})); }
static Z draw(const Bytes& d) { return Z::bytes(d) % (n() - Z(1)) + Z(1); }
static Bytes rnd_draw(Rnd& r)
{
    switch (r.below(6))
    {
    case 0: return Z(r.below(4)).to(32);
    case 1: return (n() + Z(r.below(5)) - Z(3)).to(32);
    case 2: return (pow2(256) - Z(1 + r.below(4))).to(32);
    default: return r.bytes(32);
    }
}
static sm9::SM9EcPC form(int f) { return f == 0 ? sm9::SM9EcPC::UNCOMPRESSED : f == 1 ? sm9::SM9EcPC::COMPRESSED : sm9::SM9EcPC::MIX; }
struct Sig
{
    Z      h;
    P1     S;
    size_t draws = 0;
    bool   ok    = false;
    Bytes  enc(int f) const { return cat({h.to(32), sm9r::enc(S, f)}); }
};
template <class H> static Sig rsign(const Z& ks, const Z& t2, const Bytes& m, const std::vector<Bytes>& draws)
{
    Sig s;
    for (auto& d : draws)
    {
        Z r = draw(d);
        s.draws++;
        s.h = hn<H>(2, cat({m, enc12(gpow(mulmod(ks, r, n())))}));
        Z l = (r - s.h) % n();
        if (l.zero()) continue;
        s.S  = mulg1(mulmod(l, t2, n()));
        s.ok = true;
        break;
    }
    return s;
}
template <class H> static Bytes pubxy(const MPub<H>& k)
{
    Bytes o(128);
    k.get_pub(o.data(), o.data() + 64);
    return o;
}
template <class H> static bool ver(Ctx& c, const MPub<H>& k, const Bytes& sig, const Bytes& m, const Bytes& id, u8 hid)
{
    Buf s(sig, c.r.below(5)), mb(m, c.r.below(5)), ib(id, c.r.below(5));
    bool v = k.verify(s, sig.size(), mb, m.size(), ib, id.size(), hid);
    if (s.bytes() != sig || mb.bytes() != m || ib.bytes() != id) c.fail("input-changed", "verification changed its input");
    c.out((u64)v);
    if (c.r.chance(1, 4))
    { // a user key verifies under the master public key it carries, whatever its own half is
        UPrv<H> u;
        Bytes   p = pubxy<H>(k), q = mulg1(Z(1 + c.r.below(9))).xy();
        u.set_priv(q.data(), q.data() + 32, p.data(), p.data() + 64);
        bool w = u.verify(s, sig.size(), mb, m.size(), ib, id.size(), hid);
        if (hid == 1 && c.r.below(2)) w = u.verify(s, sig.size(), mb, m.size(), ib, id.size());
        if (w != v) c.fail("verify-user-key", "the user key says %s, the master public key %s: id %s hid %d sig %s", w ? "yes" : "no", v ? "yes" : "no", hex(id).c_str(), hid, hex(sig).c_str());
        c.tag(v ? "accepted through a user key" : "refused through a user key");
        if (v && hid != 1) c.tag("accepted through a user key, other identifier");
    }
    return v;
}
template <class H> static void flow(Ctx& c, const Z& ks, const Bytes& id, u8 hid, const Bytes& m, const std::vector<Bytes>& draws, int f)
{
    selfcheck();
    c.in(ks.to(32)), c.in(id), c.in(hid), c.in(m), c.in(f);
    for (auto& d : draws) c.in(d);
    c.sample("ks = " + ks.str() + ", id of " + std::to_string(id.size()) + " bytes, message of " + std::to_string(m.size()));
    MPrv<H> mk;
    mk.set_priv(Buf(ks.to(32), c.r.below(5)));
    Bytes kb(32);
    mk.get_priv(kb.data());
    c.eq("master", kb, ks.to(32), "exported master key");
    Bytes pub = mulg2(ks).xy();
    c.eq("master-pub", pubxy<H>(mk.fetch_SignPublicKey()), pub, "master public key of " + ks.str());
    Z         t1 = (h1<H>(id, hid) + ks) % n();
    ScriptRng none;
    UPrv<H>   uk;
    if (t1.zero())
    {
        c.tag("identity without user key");
        try
        {
            mk.gen_SignPrivateKey(Buf(id, 0), id.size(), none, hid);
            c.fail("issue-zero", "user key issued although H1 + ks = 0");
        }
        catch (std::runtime_error&) {}
        return;
    }
    Z  t2 = mulmod(ks, invmod(t1, n()), n());
    P1 ds = mulg1(t2);
    Buf idb(id, c.r.below(5));
    uk = hid == 1 && c.r.below(2) ? mk.gen_SignPrivateKey(idb, id.size(), none) : mk.gen_SignPrivateKey(idb, id.size(), none, hid);
    if (none.pos) c.fail("issue-randomness", "issuing a user key consumed randomness");
    Bytes ux(64), up(128);
    uk.get_priv(ux.data(), ux.data() + 32, up.data(), up.data() + 64);
    c.eq("issue", ux, ds.xy(), "user key for ks = " + ks.str() + ", id " + hex(id));
    c.eq("issue-pub", up, pub, "public half of the user key");
    c.out(ux), c.out(up);
    Sig e = rsign<H>(ks, t2, m, draws);
    if (!e.ok) return;
    if (e.draws > 1) c.tag("retry");
    UPrv<H> im; // re-imported
    im.set_priv(Buf(ds.x.to(32), c.r.below(5)), Buf(ds.y.to(32), c.r.below(5)), Buf(pub.data(), 64, c.r.below(5)), Buf(pub.data() + 64, 64, c.r.below(5)));
    MPub<H> ip;
    ip.set_pub(Buf(pub.data(), 64, c.r.below(5)), Buf(pub.data() + 64, 64, c.r.below(5)));
    Bytes sig;
    for (int k = 0; k < 2; k++)
    {
        ScriptRng rng;
        rng.script = draws;
        Buf    o(f == 1 ? 65 : 97, c.r.below(5)), mb(m, c.r.below(5));
        size_t ol = 0x5a5a;
        if (f == 0 && c.r.below(2)) (k ? im : uk).sign(o, &ol, mb, m.size(), rng);
        else (k ? im : uk).sign(o, &ol, mb, m.size(), rng, form(f));
        const char* who = k ? "re-imported user key" : "user key";
        if (ol != o.size()) { c.fail("sign-length", "signature length %zu announced for form %d", ol, f); return; }
        c.eq("sign", o.bytes(), e.enc(f), std::string("signature with the ") + who + fmt(", form %d, draw %s", f, hex(draws[e.draws - 1]).c_str()));
        if (rng.pos != e.draws) c.fail("sign-draws", "%zu draws used instead of %zu", rng.pos, e.draws);
        if (!o.ok()) c.fail("overrun", "signing wrote outside the signature");
        sig = o.bytes();
        c.out(sig);
    }
    struct { const char* who; bool v; } vs[] = {
        {"master public key", ver<H>(c, mk.fetch_SignPublicKey(), sig, m, id, hid)},
        {"re-imported master public key", c.idx % 2 || ver<H>(c, ip, sig, m, id, hid)},
        {"public half of the re-imported user key", c.idx % 2 == 0 || ver<H>(c, im.fetch_pub(), sig, m, id, hid)},
        {"user key", c.idx % 3 || uk.verify(sig.data(), sig.size(), m.data(), m.size(), id.data(), id.size(), hid)},
    };
    for (auto& v : vs)
        if (!v.v) c.fail("verify-own", "signature refused by %s: ks = %s id = %s hid = %d m = %s sig = %s", v.who, ks.str().c_str(), hex(id).c_str(), hid, hex(m).c_str(), hex(sig).c_str());
}
static u8 rhid(Rnd& r) { return r.chance(2, 3) ? 1 : (u8)r.below(256); }
static std::vector<Bytes> rdraws(Rnd& r, size_t k)
{
    std::vector<Bytes> v;
    while (k--) v.push_back(rnd_draw(r));
    return v;
}
VF_CASE("C26", "issue-sign-verify", 400, 0.15, 15, [](Ctx& c) {
    Z     ks = c.idx < 12 ? Z(1 + c.idx) : c.idx < 24 ? n() - Z(c.idx - 11) : rndscalar(c.r);
    Bytes id = c.r.ebytes(c.r.len(200, 64)), m = c.r.ebytes(c.r.len(c.r.chance(1, 10) ? 3000 : 200, 64));
    u8    hid = rhid(c.r);
    auto  d   = rdraws(c.r, 3);
    int   f   = (int)c.r.below(3);
    flow<SM3>(c, ks, id, hid, m, d, f);
});
VF_CASE("C26", "endurance", 1, 1, 4, [](Ctx& c) { // one key, many signatures
    Z ks = rndscalar(c.r);
    c.in(ks.to(32));
    MPrv<SM3> mk(ks.to(32).data());
    auto      pk = mk.fetch_SignPublicKey();
    Bytes     id = c.r.bytes(c.r.below(20));
    ScriptRng none;
    auto      uk = mk.gen_SignPrivateKey(id.data(), id.size(), none);
    Z         t2 = mulmod(ks, invmod((h1<SM3>(id, 1) + ks) % n(), n()), n());
    for (size_t i = 0; i < 280 && !c.failed; i++)
    {
        Bytes     m = c.r.bytes(c.r.below(40)), o(65);
        ScriptRng g;
        g.script = {c.r.bytes(32), c.r.bytes(32)};
        size_t l = 0;
        uk.sign(o.data(), &l, m.data(), m.size(), g, form(1));
        if (!pk.verify(o.data(), l, m.data(), m.size(), id.data(), id.size())) c.fail("verify-own", "signature %zu of one key refused", i);
        if (i % 16 && i < 250) continue;
        Sig e = rsign<SM3>(ks, t2, m, g.script);
        if (e.ok) c.eq("sign", o, e.enc(1), fmt("signature %zu with one key", i));
    }
    c.tag("many signatures with one key");
}, 240);
VF_CASE("C26", "scales", 32, 0.3, 10, [](Ctx& c) {
    size_t n  = c.r.scale(c.idx / 2, 8, 20);
    Bytes  id = c.r.bytes(c.idx & 1 ? n : c.r.below(40)), m = c.r.bytes(c.idx & 1 ? c.r.below(40) : n);
    c.tag(c.idx & 1 ? "long identity" : "long message");
    flow<SM3>(c, rndscalar(c.r), id, rhid(c.r), m, rdraws(c.r, 3), (int)c.r.below(3));
}, 120);
// a hash that returns chosen values of H1 and H2
static void put(u8* d, size_t D, const Bytes& in, const Z& h)
{
    Bytes ha = (h - Z(1)).to(40);
    ha.resize(40 + D, 0x77);
    size_t ct = in.back();
    std::memcpy(d, &ha[(ct - 1) * D], D);
}
template <size_t D> static void hooked(Ctx& c)
{
    Z     ks = rndscalar(c.r);
    Bytes id = c.r.bytes(c.r.below(40)), m = c.r.bytes(c.r.below(40));
    u8    hid = rhid(c.r);
    auto  d   = rdraws(c.r, 4);
    Z     x1(0), x2(0);
    auto spec = [&](int g) {
        Z z(g == 1 ? special::pick(special::kSm9G1, c.r) : g == 2 ? special::pick(special::kSm9G2, c.r) : special::pick(special::kSm9GT, c.r));
        return c.r.below(2) ? n() - z : z;
    };
    auto over = [&](const Z& a, const Z& b) { return mulmod(a, invmod(b, n()), n()); };
    switch (c.idx % 10)
    {
    case 6: // the user key [ks / (H1 + ks)]P1 has unusual coordinates
        x1 = (over(ks, spec(1)) + n() - ks) % n();
        if (x1.zero()) x1 = Z(1);
        c.tag("user key with unusual coordinates");
        break;
    case 7: // the verifier's point [H1]P2 + Ppub has unusual coordinates
        x1 = (spec(2) + n() - ks) % n();
        if (x1.zero()) x1 = Z(1);
        c.tag("verifier's point with unusual coordinates");
        break;
    case 8: // w = g^(ks r)
        d[0] = ((over(spec(3), ks) + n() - Z(1)) % n()).to(32);
        c.tag("signed pairing value with unusual coordinates");
        break;
    case 9: // S = [r - H2] dA
        x1 = rndscalar(c.r);
        x2 = (draw(d[0]) + n() - mulmod(spec(1), over(x1 + ks, ks), n())) % n();
        if (x2.zero()) x2 = Z(1);
        c.tag("signature point with unusual coordinates");
        break;
    case 0: x1 = ks; c.tag("H1 equal to ks"); break;
    case 1: x1 = n() - ks; break;
    case 2: x2 = draw(d[0]); if (c.r.below(2)) d[1] = d[0]; c.tag("H2 equal to r"); break;
    case 3: x1 = c.r.below(2) ? Z(1) : n() - Z(1); x2 = c.r.below(2) ? Z(1) : n() - Z(1); break;
    case 4: x1 = rndscalar(c.r), x2 = rndscalar(c.r); break;
    default: x1 = (n() - ks + Z(1)) % n(); if (x1.zero()) x1 = Z(1); // t1 = 1
    }
    bool wide = c.r.chance(1, 3); // large 40-byte value with the same residue
    HookGuard g([&](const Bytes& in, u8* o) {
        const Z& x = in[0] == 1 ? x1 : x2;
        if (x.zero()) return false;
        Z v = x;
        if (wide) v = v + (n() - Z(1)) * Z(0xfedcba9876543210ull);
        put(o, D, in, v);
        return true;
    });
    c.in(x1.to(32)), c.in(x2.to(32)), c.in(D);
    flow<HookHash<D>>(c, ks, id, hid, m, d, (int)c.r.below(3));
}
VF_CASE("C26", "chosen-hashes", 400, 0.15, 15, [](Ctx& c) {
    switch (c.idx / 10 % 4)
    {
    case 0: hooked<20>(c); break;
    case 1: hooked<48>(c); break;
    case 2: hooked<64>(c); break;
    default: hooked<32>(c);
    }
});
VF_CASE("C26", "keys", 300, 0.15, 15, [](Ctx& c) {
    selfcheck();
    Z v;
    switch (c.idx % 6)
    {
    case 0: v = Z(c.r.below(3)); break;
    case 1: v = n() + Z(c.r.below(5)) - Z(3); break;
    case 2: v = pow2(256) - Z(1 + c.r.below(4)); break;
    case 3: v = n() + Z::bytes(c.r.bytes(8)); break;
    default: v = rnd256(c.r);
    }
    bool good = !v.zero() && v < n();
    // held before: unrelated, the same, the negative or one that shares bytes
    Z k0 = Z::bytes(c.r.renew(v.to(32), rndscalar(c.r).to(32)));
    if (good && c.r.chance(1, 4)) k0 = n() - v;
    if (k0.zero() || k0 >= n()) k0 = rndscalar(c.r);
    if (k0 == v) c.tag("set over the same key");
    MPrv<SM3> mk(k0.to(32).data());
    c.eq("master-pub", pubxy<SM3>(mk.fetch_SignPublicKey()), mulg2(k0).xy(), "constructed with a key");
    c.in(v.to(32)), c.in(k0.to(32));
    c.sample("master key candidate " + v.str());
    c.tag(good ? "master key accepted" : "master key refused");
    bool acc = true;
    try { mk.set_priv(Buf(v.to(32), c.r.below(5))); }
    catch (std::runtime_error&) { acc = false; }
    if (acc != good) c.fail("master-range", "master key %s %s", v.str().c_str(), acc ? "accepted" : "refused");
    if (acc && good) c.eq("master-pub", pubxy<SM3>(mk.fetch_SignPublicKey()), mulg2(v).xy(), "master public key of " + v.str());
    if (!acc)
    {
        Bytes ob(32);
        mk.get_priv(ob.data());
        c.eq("old-master-lost", ob, k0.to(32), "master key after a refused one");
        c.eq("old-master-lost", pubxy<SM3>(mk.fetch_SignPublicKey()), mulg2(k0).xy(), "master public key after a refused key");
    }
    // generated
    ScriptRng rng;
    rng.script = {rnd_draw(c.r)};
    rng.use_rest = true, rng.budget = 4, rng.rest = c.r;
    bool ctor = c.r.below(2);
    if (ctor) mk = MPrv<SM3>(rng);
    else mk.gen_priv(rng);
    Bytes kb(32);
    mk.get_priv(kb.data());
    Z g = Z::bytes(kb);
    if (g.zero() || g >= n()) c.fail("generate-range", "generated master key %s from %s", g.str().c_str(), hex(rng.script[0]).c_str());
    else c.eq("generate-pub", pubxy<SM3>(mk.fetch_SignPublicKey()), mulg2(g).xy(), "public half of generated " + g.str());
    c.out(kb), c.out(pubxy<SM3>(mk.fetch_SignPublicKey()));
    // public keys off the curve
    P2 P = mulg2(rndscalar(c.r)), B = P;
    switch (c.r.below(5))
    {
    case 2: B = half_on(c.r, true); break;
    case 3: B = half_on(c.r, false); break;
    case 0: B.y.a = addp(B.y.a, Z(1)); break;
    case 1: B.x.b = addp(B.x.b, Z(1)); break;
    default: std::swap(B.x, B.y);
    }
    MPub<SM3> pk;
    Bytes     e = B.xy(), e2 = P.xy();
    if (c.r.chance(1, 2))
    { // over another key, often the negative one
        P2 N = P;
        N.y.a = subp(Z(0), P.y.a), N.y.b = subp(Z(0), P.y.b);
        if (c.r.chance(1, 2)) N = mulg2(rndscalar(c.r));
        Bytes en = N.xy();
        pk.set_pub(&en[0], &en[64]);
        c.eq("pub-roundtrip", pubxy<SM3>(pk), en, "exported public key");
        c.tag("public key set over another");
    }
    pk.set_pub(&e2[0], &e2[64]);
    c.eq("pub-roundtrip", pubxy<SM3>(pk), e2, "exported public key");
    if (!on(B))
    {
        try { pk.set_pub(&e[0], &e[64]); c.fail("pub-off-curve", "public key off the curve accepted: %s", hex(e).c_str()); }
        catch (std::runtime_error&) { c.tag("key refused over a held one"); }
        c.eq("old-pub-lost", pubxy<SM3>(pk), e2, "public key after a refused one");
    }
    P1 D = rndp1(c.r);
    UPrv<SM3> uk;
    uk.set_priv(D.x.to(32).data(), D.y.to(32).data(), &e2[0], &e2[64]);
    Bytes ux(64), up(128);
    uk.get_priv(ux.data(), ux.data() + 32, up.data(), up.data() + 64);
    c.eq("user-roundtrip", ux, D.xy(), "exported user key");
    c.eq("user-roundtrip", up, e2, "exported public half");
    auto still = [&](const char* w) {
        uk.get_priv(ux.data(), ux.data() + 32, up.data(), up.data() + 64);
        c.eq("old-user-lost", ux, D.xy(), std::string("user key after a refused ") + w);
        c.eq("old-user-lost", up, e2, std::string("public half of the user key after a refused ") + w);
    };
    P1    D2 = rndp1(c.r);
    Bytes e3 = mulg2(rndscalar(c.r)).xy();
    Z     by = addp(D2.y, Z(1));
    if (!on(D2.x, by))
    {
        try { uk.set_priv(D2.x.to(32).data(), by.to(32).data(), &e3[0], &e3[64]); c.fail("user-off-curve", "user key off the curve accepted"); }
        catch (std::runtime_error&) { still("private half"); }
    }
    if (!on(B))
    {
        try { uk.set_priv(D2.x.to(32).data(), D2.y.to(32).data(), &e[0], &e[64]); c.fail("user-off-curve", "user key with public half off the curve accepted"); }
        catch (std::runtime_error&) { still("public half"); }
    }
});
VF_CASE("C26", "generate-failing", 40, 0.3, 8, [](Ctx& c) {
    // a source that fails, part of its bytes delivered: the master key held before stays, both halves
    struct Part : rng::Rng
    {
        Bytes  w;
        size_t n;
        const char* name() const noexcept override { return "failing"; }
        void gen(void* o, size_t l) override
        {
            memcpy(o, w.data(), std::min({n, l, w.size()}));
            throw std::runtime_error("no random bytes");
        }
    } g;
    Z k0 = rndscalar(c.r);
    g.w = c.r.chance(1, 2) ? rndscalar(c.r).to(32) : c.r.bytes(32), g.n = c.r.below(33);
    MPrv<SM3> mk(k0.to(32).data());
    c.in(k0.to(32)), c.in(g.w), c.in(g.n);
    bool thr = false;
    try { mk.gen_priv(g); } catch (...) { thr = true; }
    Bytes kb(32);
    mk.get_priv(kb.data());
    if (thr) c.eq("old-master-lost", kb, k0.to(32), "master key after a generation whose source failed");
    Z z = Z::bytes(kb);
    if (z.zero() || z >= n()) c.fail("generate-range", "master key %s after a generation whose source failed", z.str().c_str());
    else c.eq("generate-pub", pubxy<SM3>(mk.fetch_SignPublicKey()), mulg2(z).xy(), "public half after a generation whose source failed");
    c.tag("source failed part way");
});
VF_REQ("C26", "source failed part way", "user key with unusual coordinates", "verifier's point with unusual coordinates", "signed pairing value with unusual coordinates", "signature point with unusual coordinates", "key refused over a held one", "identity without user key", "retry", "H1 equal to ks", "H2 equal to r", "master key accepted", "master key refused");

// ---------------------------------------------------------------- C27
template <class H> static void expect(Ctx& c, const MPub<H>& k, const Bytes& sig, const Bytes& m, const Bytes& id, u8 hid, bool e, const char* key, const std::string& what)
{
    bool v = ver<H>(c, k, sig, m, id, hid);
    c.tag(v ? "accepted" : "refused");
    if (v != e) c.fail((std::string(e ? "refuses-" : "accepts-") + key).c_str(), "%s %s: %s", what.c_str(), v ? "accepted" : "refused", hex(sig).c_str());
}
VF_CASE("C27", "alterations", 120, 0.12, 15, [](Ctx& c) {
    selfcheck();
    Z     ks = rndscalar(c.r);
    Bytes id = c.r.bytes(c.r.below(30)), m = c.r.bytes(c.r.below(60));
    u8    hid = rhid(c.r);
    MPrv<SM3> mk(ks.to(32).data());
    const MPub<SM3>& pk = mk.fetch_SignPublicKey();
    Z     t1 = (h1<SM3>(id, hid) + ks) % n();
    if (t1.zero()) return;
    Sig s = rsign<SM3>(ks, mulmod(ks, invmod(t1, n()), n()), m, rdraws(c.r, 3));
    if (!s.ok) return;
    int   f   = (int)(c.idx % 3);
    Bytes sig = s.enc(f), b;
    c.in(sig);
    c.sample("signature " + hex(sig));
    for (int k = 0; k < 3; k++)
        if (k == f || c.r.chance(1, 3)) expect<SM3>(c, pk, s.enc(k), m, id, hid, true, "valid", "valid signature");
    // length
    for (size_t l = 0; l < sig.size(); l++) expect<SM3>(c, pk, Bytes(sig.begin(), sig.begin() + l), m, id, hid, false, "truncated", "truncated signature");
    for (size_t l : {1, 2, 31, 32, 33, 65}) expect<SM3>(c, pk, cat({sig, Bytes(l, (u8)c.r.below(3))}), m, id, hid, false, "extended", "extended signature");
    for (int t = 0; t < 256; t++)
    {
        b = sig, b[32] = (u8)t;
        P1   P;
        bool same = dec(P, &b[32], b.size() - 32) == b.size() - 32 && P == s.S;
        if (same && b != sig && c.r.below(2)) continue;
        expect<SM3>(c, pk, b, m, id, hid, same, "prefix", fmt("point prefix %02x", t));
    }
    // bits: of h, of the point
    for (int i = 0; i < 3; i++)
    {
        b = sig;
        b[c.r.below(32)] ^= (u8)(1 << c.r.below(8));
        expect<SM3>(c, pk, b, m, id, hid, false, "bit", "bit of h altered");
    }
    for (int i = 0; i < 4; i++)
    {
        std::string w;
        b = sig;
        if (tamper(c.r, b, 0, 32, w)) expect<SM3>(c, pk, b, m, id, hid, false, "several bytes", "h with " + w);
    }
    for (size_t i = 33; i < sig.size(); i++)
    {
        if (f == 1 && !c.r.chance(1, 10)) continue;
        b = sig;
        b[i] ^= (u8)(1 << c.r.below(8));
        expect<SM3>(c, pk, b, m, id, hid, false, "bit", "bit of S altered");
    }
    auto alt = [&](const Z& h, const P1& S, const char* key) {
        if (S.inf) return;
        b = cat({h.to(32), enc(S, f)});
        expect<SM3>(c, pk, b, m, id, hid, false, key, key);
    };
    alt(s.h, neg(s.S), "negated point");
    if (c.r.below(2)) alt(s.h, add(s.S, G1()), "point shifted");
    if (s.h + n() < pow2(256)) alt(s.h + n(), s.S, "h plus N"), c.tag("h plus N");
    alt(c.r.below(2) ? Z(0) : n() - s.h, s.S, "other h");
    alt(c.r.below(2) ? Z(0) : n(), s.S, "h zero or N");
    if (f == 2) b = sig, b[32] ^= 1, expect<SM3>(c, pk, b, m, id, hid, false, "hybrid parity", "hybrid parity");
    // other context
    Bytes m2 = m, id2 = id;
    if (m.empty() || c.r.chance(1, 3)) m2.push_back(0);
    else if (c.r.chance(1, 3)) m2.pop_back();
    else m2[c.r.below(m.size())] ^= (u8)(1 << c.r.below(8));
    expect<SM3>(c, pk, sig, m2, id, hid, false, "message", "other message");
    if (id.empty() || c.r.chance(1, 3)) id2.push_back(hid);
    else if (c.r.chance(1, 3)) id2.pop_back();
    else id2[c.r.below(id.size())] ^= (u8)(1 << c.r.below(8));
    expect<SM3>(c, pk, sig, m, id2, hid, false, "identity", "other identity");
    expect<SM3>(c, pk, sig, m, id, (u8)(hid ^ (1 << c.r.below(8))), false, "hid", "other key identifier");
    Z ks2 = c.r.below(2) ? n() - ks : rndscalar(c.r);
    if (ks2 == ks) ks2 = ks == Z(1) ? Z(2) : ks - Z(1);
    MPrv<SM3> mk2(ks2.to(32).data());
    expect<SM3>(c, mk2.fetch_SignPublicKey(), sig, m, id, hid, false, "master", "other master key");
});
VF_CASE("C27", "garbage", 400, 0.2, 15, [](Ctx& c) {
    selfcheck();
    static const MPrv<SM3> mk(Z(12345).to(32).data());
    Bytes b = c.r.ebytes(c.r.chance(1, 2) ? c.r.below(300) : c.r.pick({(size_t)32, (size_t)33, (size_t)64, (size_t)65, (size_t)97, (size_t)98}));
    if (b.size() > 32 && c.r.below(2)) b[32] = (u8)(2 + c.r.below(6));
    if (b.size() >= 97 && c.r.below(3) == 0)
    { // a point of the curve
        Bytes e = enc(rndp1(c.r), 0);
        std::memcpy(&b[32], e.data(), 65);
        b.resize(97);
        c.tag("random h with a curve point");
    }
    c.in(b);
    c.sample(hex(b));
    expect<SM3>(c, mk.fetch_SignPublicKey(), b, c.r.bytes(5), c.r.bytes(5), 1, false, "garbage", "garbage");
});
// valid by construction: S chosen, H2 answers h exactly for the right w
template <size_t D> static void constructed(Ctx& c)
{
    selfcheck();
    typedef HookHash<D> H;
    Z     ks = rndscalar(c.r), h = rndscalar(c.r), x1(0);
    Bytes id = c.r.bytes(c.r.below(20)), m = c.r.bytes(c.r.below(20));
    u8    hid = rhid(c.r);
    Bytes want;
    int   kind = (int)(c.idx % 4);
    if (kind == 1) x1 = ks;
    if (kind == 2) x1 = n() - ks;
    HookGuard g([&](const Bytes& in, u8* o) {
        if (in[0] == 1 && !x1.zero()) return put(o, D, in, x1), true;
        if (in[0] == 2 && in.size() == want.size() + 5 && std::memcmp(&in[1], want.data(), want.size()) == 0) return put(o, D, in, h), true;
        return false;
    });
    MPrv<H> mk(ks.to(32).data());
    const MPub<H>& pk = mk.fetch_SignPublicKey();
    P1 S  = rndp1(c.r);
    Z  a  = (h1<H>(id, hid) + ks) % n();
    c.in(S.xy()), c.in(ks.to(32)), c.in(h.to(32)), c.in(id), c.in(m), c.in(kind);
    c.sample("S = " + hex(S.xy()) + ", h = " + h.str());
    if (a.zero())
    { // no user key can exist: e(S, P) would be one
        c.tag("P at infinity");
        // whatever value a degenerate pairing could take: product, zero, one
        for (int z = 0; z < 3; z++)
        {
        want = cat({m, z == 1 ? Bytes(384, 0) : enc12(z ? F(1) : gpow(mulmod(ks, h, n())))});
        for (int f = 0; f < 3; f++) expect<H>(c, pk, cat({h.to(32), enc(S, f)}), m, id, hid, false, "infinity", "identity without user key");
        }
        return;
    }
    F w  = pairing(S, mulg2(a)) * gpow(mulmod(ks, h, n()));
    want = cat({m, enc12(w)});
    if (kind == 1) c.tag("P from equal points");
    for (int f = 0; f < 3; f++)
    {
        Bytes sig = cat({h.to(32), enc(S, f)}), b;
        expect<H>(c, pk, sig, m, id, hid, true, "constructed", "signature valid by construction");
        Z room = pow2(256) - p();
        if (S.x < room)
        {
            b = sig;
            Bytes t = (S.x + p()).to(32);
            std::memcpy(&b[33], t.data(), 32);
            c.tag("unreduced x");
            expect<H>(c, pk, b, m, id, hid, false, "unreduced", "unreduced x");
        }
        if (f != 1 && S.y < room)
        {
            b = sig;
            Bytes t = (S.y + p()).to(32);
            std::memcpy(&b[65], t.data(), 32);
            c.tag("unreduced y");
            expect<H>(c, pk, b, m, id, hid, false, "unreduced", "unreduced y");
            if (f == 2) b[32] ^= 1, expect<H>(c, pk, b, m, id, hid, false, "unreduced", "unreduced y");
        }
        if (f == 2) b = sig, b[32] ^= 1, expect<H>(c, pk, b, m, id, hid, false, "hybrid parity", "hybrid parity");
        if (h + n() < pow2(256)) b = cat({(h + n()).to(32), enc(S, f)}), c.tag("h plus N"), expect<H>(c, pk, b, m, id, hid, false, "h plus N", "h plus N");
        b = cat({h.to(32), enc(neg(S), f)});
        expect<H>(c, pk, b, m, id, hid, false, "negated point", "negated point");
    }
}
VF_CASE("C27", "constructed", 120, 0.12, 15, [](Ctx& c) {
    switch (c.idx / 4 % 3)
    {
    case 0: constructed<20>(c); break;
    case 1: constructed<64>(c); break;
    default: constructed<32>(c);
    }
});
VF_REQ("C27", "accepted", "refused", "accepted through a user key", "refused through a user key", "accepted through a user key, other identifier", "P at infinity", "P from equal points", "unreduced x", "unreduced y", "h plus N", "random h with a curve point");
VF_MAIN
