// C35: copies of library objects are equivalent and independent
#include "ops.h"
#include <gmlib/ghash/ghash.h>
#include <vector>
using namespace vf;
using namespace ops;
namespace {
// One kind of object: T plus what its user knows about it. step() uses it once, choosing from the stream only.
template <class C> struct MCipher
{
    C   c;
    int dir = -1;
    void step(Rnd& r, Sink& s)
    {
        if (dir < 0 || r.chance(1, 4))
        {
            Buf k(r.ebytes(C::USER_KEY_LEN), off(r));
            dir = (int)r.below(2);
            c.set_key(k, dir);
        }
        blk(r, s, c, dir == 1);
    }
};
struct MSm3
{
    sm3::SM3 h;
    bool     done = false;
    void step(Rnd& r, Sink& s)
    {
        if (done || r.chance(1, 10)) h.reset(), done = false;
        Bytes x = r.ebytes(r.len(200, 64));
        Buf   b(x, off(r));
        if (r.chance(1, 3))
        {
            Buf d(32, off(r));
            h.do_final(d, b, x.size());
            s.out(d);
            done = true;
        }
        else h.update(b, x.size());
    }
};
struct MHmac
{
    hash_lib::HMac<sm3::SM3> h;
    bool                     set = false;
    void step(Rnd& r, Sink& s)
    {
        if (!set || r.chance(1, 10))
        {
            Buf k(r.ebytes(r.len(140, 64)), off(r));
            h.set_key(k, k.size());
            set = true;
        }
        Bytes x = r.ebytes(r.len(200, 64));
        Buf   b(x, off(r));
        if (r.chance(1, 3))
        {
            Buf d(32, off(r));
            h.do_final(d, b, x.size());
            s.out(d);
            set = false;
        }
        else h.update(b, x.size());
    }
};
struct MGhash
{
    ghash::GHash g;
    bool         set = false;
    size_t       n   = 0;
    void step(Rnd& r, Sink& s)
    {
        if (!set || r.chance(1, 10))
        {
            Buf k(r.ebytes(16), off(r));
            g.set_key(k);
            g.reset();
            set = true, n = 0;
        }
        if (r.chance(1, 10)) g.reset(), n = 0;
        bool  fin = r.chance(1, 3);
        Bytes x   = r.ebytes(fin ? r.below(5) * 16 + (16 - n % 16) % 16 : r.len(100, 16));
        Buf   b(x, off(r));
        if (fin)
        {
            Buf d(16, off(r));
            g.do_final(d, b, x.size());
            s.out(d);
            g.reset();
            n = 0;
        }
        else g.update(b, x.size()), n += x.size();
    }
};
// modes: MODE 0 ECB, 1 with IV, 2 GCM encryption, 3 GCM decryption
template <class E, int MODE, size_t KL, class SEAL = int> struct MMode
{
    E      e;
    bool   set = false, keyed = false;
    Bytes  ct, tag; // what a GCM decryptor is being given
    size_t at = 0;
    void step(Rnd& r, Sink& s)
    {
        if (!set || r.chance(1, 12))
        {
            Buf k(r.ebytes(KL), off(r)), v(r.ebytes(MODE < 2 ? 16 : 1 + r.below(30)), off(r)), a(r.ebytes(r.len(50, 16)), off(r));
            if constexpr (MODE == 0)
            {
                if (keyed && r.chance(1, 2)) e.reset();
                else e.init(k);
            }
            else if constexpr (MODE == 1)
            {
                if (keyed && r.chance(1, 2)) e.reset(v);
                else e.init(k, v);
            }
            else
            {
                e.init(k, v, v.size(), a, a.size());
                if constexpr (MODE == 3)
                {
                    SEAL   x(k, v, v.size(), a, a.size());
                    Bytes  m = r.ebytes(r.len(150, 16));
                    size_t n = 0, l = 0;
                    ct.assign(m.size() + 16, 0), tag.assign(16, 0);
                    x.do_final(ct.data(), &n, m.data(), m.size());
                    x.get_tag(tag.data());
                    ct.resize(m.size()), at = 0, (void)l;
                    if (r.chance(1, 4)) (ct.empty() || r.chance(1, 2) ? tag : ct)[0] ^= 0x10;
                    e.set_tag(tag.data());
                }
            }
            set = keyed = true;
        }
        Bytes x   = r.ebytes(r.len(120, 16));
        bool  fin = r.chance(1, 4);
        if constexpr (MODE == 3)
        {
            size_t k = fin ? ct.size() - at : r.below(ct.size() - at + 1);
            x.assign(ct.begin() + (long)at, ct.begin() + (long)(at + k)), at += k;
            if (r.chance(1, 4)) e.set_tag(tag.data());
        }
        Buf    b(x, off(r)), o(x.size() + 16, off(r));
        size_t n = 9999;
        if (fin)
        {
            bool ok = true;
            try { e.do_final(o, &n, b, x.size()); }
            catch (std::exception&) { ok = false; }
            s.out((u64)ok);
            if (ok) s.out(n), s.out(o, n);
            if constexpr (MODE == 2)
            {
                Buf t(16, off(r));
                e.get_tag(t);
                s.out(t);
            }
            set = false;
        }
        else
        {
            e.update(o, &n, b, x.size());
            s.out(n), s.out(o, n);
        }
        s.chk(o);
    }
};
struct Fails : rng::Rng
{
    const char* name() const override { return "Fails"; }
    void gen(void*, std::size_t) override { throw std::runtime_error("source failed"); }
};
inline Bytes scalar(Rnd& r)
{
    Bytes b = r.ebytes(32);
    if (b[0] > 0xb0) b[0] = (u8)r.below(0xb0);
    bool z = true;
    for (u8 x : b) z = z && !x;
    if (z) b[31] = 1;
    return b;
}
struct MPrv2
{
    Prv2 k;
    bool set = false;
    void step(Rnd& r, Sink& s)
    {
        DetRng g(r.next());
        u64    what = set ? r.below(8) : r.below(2);
        if (what == 0) { Buf b(scalar(r), off(r)); k.set_priv(b); set = true; }
        if (what == 1) k.gen_priv(g), set = true;
        if (what == 2)
        {
            Fails f;
            s.out((u64)attempt(s, [&] { k.gen_priv(f); }));
            Buf b(Bytes(32, (u8)(r.below(2) ? 0xff : 0)), 0);
            s.out((u64)attempt(s, [&] { k.set_priv(b); }));
        }
        Buf d(32, off(r));
        k.get_priv(d);
        s.out(d);
        opub(s, k.fetch_pub());
        if (what >= 3 && what <= 5)
        {
            Bytes m = r.ebytes(r.len(100, 32)), id = r.ebytes(r.below(20));
            Buf   mb(m, off(r)), ib(id, off(r)), sig(64, off(r));
            if (what == 3) k.sign(sig, mb, m.size(), g);
            else k.sign(sig, mb, m.size(), g, ib, id.size());
            s.out(sig);
            s.out((u64)k.verify(sig, mb, m.size(), ib, id.size()));
        }
        if (what >= 6)
        {
            Bytes  m = r.ebytes(1 + r.len(80, 32));
            Buf    mb(m, off(r));
            size_t cl = Pub2::ciphertext_len(mb, m.size(), pc2(0)), n = 9999, l = 9999;
            Buf    c(cl, off(r)), o(m.size(), off(r));
            k.encrypt(c, &n, mb, m.size(), g, pc2(0));
            s.out(c);
            k.decrypt(o, &l, c, cl);
            s.out(l), s.out(o, l);
        }
    }
};
struct MPub2
{
    Pub2  k;
    bool  set = false;
    Bytes d; // the matching private key
    void step(Rnd& r, Sink& s)
    {
        DetRng g(r.next());
        if (!set || r.chance(1, 5))
        {
            Prv2  q;
            q.gen_priv(g);
            Bytes x(64);
            q.fetch_pub().get_pub(x.data(), x.data() + 32);
            d.assign(32, 0);
            q.get_priv(d.data());
            k.set_pub(x.data(), x.data() + 32);
            set = true;
        }
        if (r.chance(1, 5))
        {
            Bytes x = r.ebytes(64);
            s.out((u64)attempt(s, [&] { k.set_pub(x.data(), x.data() + 32); }));
            s.out((u64)0);
        }
        opub(s, k);
        Bytes m = r.ebytes(1 + r.len(80, 32));
        Buf   mb(m, off(r)), sig(r.ebytes(64), off(r));
        if (r.chance(1, 2)) Prv2(d.data()).sign(sig, mb, m.size(), g);
        s.out((u64)k.verify(sig, mb, m.size()));
        auto   f  = pc2(r.below(3));
        size_t cl = Pub2::ciphertext_len(mb, m.size(), f), n = 9999;
        Buf    c(cl, off(r));
        k.encrypt(c, &n, mb, m.size(), g, f);
        s.out(n), s.out(c);
        if (r.chance(1, 2))
        {
            Buf o(m.size(), off(r));
            Prv2(d.data()).decrypt(o, &n, c, cl);
            s.out(n), s.out(o, n);
        }
    }
};
struct MMst9
{
    Mst9 k;
    bool set = false;
    void step(Rnd& r, Sink& s)
    {
        DetRng g(r.next());
        u64    what = set ? r.below(6) : r.below(2);
        if (what == 0) { Buf b(scalar(r), off(r)); k.set_priv(b); set = true; }
        if (what == 1) k.gen_priv(g), set = true;
        if (what == 2)
        {
            Fails f;
            s.out((u64)attempt(s, [&] { k.gen_priv(f); }));
            Buf b(Bytes(32, (u8)(r.below(2) ? 0xff : 0)), 0);
            s.out((u64)attempt(s, [&] { k.set_priv(b); }));
        }
        Buf d(32, off(r)), x(64, off(r)), y(64, off(r));
        k.get_priv(d);
        k.fetch_SignPublicKey().get_pub(x, y);
        s.out(d), s.out(x), s.out(y);
        if (what >= 3)
        {
            Bytes id = r.ebytes(r.below(20));
            Buf   ib(id, off(r)), a(32), b(32);
            Prv9  u = k.gen_SignPrivateKey(ib, id.size(), g);
            u.get_priv(a, b, x, y);
            s.out(a), s.out(b), s.out(x), s.out(y);
        }
    }
};
struct MPub9
{
    Pub9  k;
    bool  set = false;
    Bytes d; // the matching master key
    void step(Rnd& r, Sink& s)
    {
        DetRng g(r.next());
        Bytes  xy(128);
        if (!set || r.chance(1, 5))
        {
            Mst9 q;
            q.gen_priv(g);
            q.fetch_SignPublicKey().get_pub(xy.data(), xy.data() + 64);
            d.assign(32, 0);
            q.get_priv(d.data());
            k.set_pub(xy.data(), xy.data() + 64);
            set = true;
        }
        if (r.chance(1, 5))
        {
            Bytes x = r.ebytes(128);
            s.out((u64)attempt(s, [&] { k.set_pub(x.data(), x.data() + 64); }));
        }
        k.get_pub(xy.data(), xy.data() + 64);
        s.out(xy.data(), 128);
        if (r.chance(1, 2))
        {
            Bytes  id = r.ebytes(r.below(20)), m = r.ebytes(r.len(60, 32));
            Buf    mb(m, off(r)), sig(97, off(r)), ib(id, off(r));
            size_t n = 9999;
            Mst9(d.data()).gen_SignPrivateKey(ib, id.size(), g).sign(sig, &n, mb, m.size(), g, pc9(0));
            s.out((u64)k.verify(sig, n, mb, m.size(), ib, id.size()));
            sig.p()[40] ^= 1;
            s.out((u64)attempt(s, [&] { s.out((u64)k.verify(sig, n, mb, m.size(), ib, id.size())); }));
        }
    }
};
struct MPrv9
{
    Prv9 k;
    bool set = false;
    Bytes id;
    void step(Rnd& r, Sink& s)
    {
        DetRng g(r.next());
        if (!set || r.chance(1, 5))
        {
            Mst9 q(scalar(r).data());
            id = r.ebytes(r.below(20));
            k  = q.gen_SignPrivateKey(id.data(), id.size(), g);
            set = true;
        }
        if (r.chance(1, 4))
        {
            Bytes x = r.ebytes(192);
            s.out((u64)attempt(s, [&] { k.set_priv(x.data(), x.data() + 32, x.data() + 64, x.data() + 128); }));
        }
        Bytes b(192);
        k.get_priv(b.data(), b.data() + 32, b.data() + 64, b.data() + 128);
        s.out(b.data(), 192);
        if (r.chance(1, 3))
        {
            Bytes  m = r.ebytes(r.len(60, 32));
            Buf    mb(m, off(r)), sig(97, off(r)), ib(id, off(r));
            size_t n = 9999;
            k.sign(sig, &n, mb, m.size(), g, pc9(0));
            s.out(n), s.out(sig, n);
            s.out((u64)k.verify(sig, n, mb, m.size(), ib, id.size()));
        }
    }
};

// An object in a block of its own, whose bytes are overwritten and freed with it.
struct Any
{
    virtual ~Any() {}
    virtual void step(u64 seed, Sink& s)     = 0;
    virtual std::unique_ptr<Any> fresh()     = 0;
    virtual std::unique_ptr<Any> copy()      = 0;
    virtual std::unique_ptr<Any> move()      = 0;
    virtual std::unique_ptr<Any> grown()     = 0; // through a vector that reallocates
    virtual void assign(Any&)                = 0;
    virtual void move_assign(Any&)           = 0;
    virtual void self()                      = 0;
    virtual void swap(Any&)                  = 0;
};
template <class M> struct Of : Any
{
    M* m;
    static void* mem() { void* p = ::operator new(sizeof(M), std::align_val_t(alignof(M) < 16 ? 16 : alignof(M))); std::memset(p, 0xc3, sizeof(M)); return p; }
    Of() : m(new (mem()) M()) {}
    explicit Of(const M& o) : m(new (mem()) M(o)) {}
    explicit Of(M&& o) : m(new (mem()) M(std::move(o))) {}
    ~Of() override
    {
        m->~M();
        std::memset((void*)m, 0x5a, sizeof(M));
        ::operator delete((void*)m, std::align_val_t(alignof(M) < 16 ? 16 : alignof(M)));
    }
    static M& of(Any& a) { return *static_cast<Of&>(a).m; }
    void step(u64 seed, Sink& s) override { Rnd r(mix(seed)); m->step(r, s); }
    std::unique_ptr<Any> fresh() override { return std::unique_ptr<Any>(new Of()); }
    std::unique_ptr<Any> copy() override { return std::unique_ptr<Any>(new Of(const_cast<const M&>(*m))); }
    std::unique_ptr<Any> move() override { return std::unique_ptr<Any>(new Of(std::move(*m))); }
    std::unique_ptr<Any> grown() override
    {
        std::vector<M> v;
        for (int i = 0; i < 5; i++) v.push_back(*m);
        v.erase(v.begin());
        return std::unique_ptr<Any>(new Of(v[1]));
    }
    void assign(Any& o) override { *m = const_cast<const M&>(of(o)); }
    void move_assign(Any& o) override { *m = std::move(of(o)); }
    void self() override { M& a = *m; *m = a; }
    void swap(Any& o) override { std::swap(*m, of(o)); }
};
struct Item
{
    std::unique_ptr<Any> o, twin;
    std::vector<u64>     hist;
    bool                 gone = false; // moved from: may only be assigned or destroyed
};
template <class M> void life(Ctx& c, const char* kind, bool heavy)
{
    Of<M> proto;
    auto  replay = [&](const std::vector<u64>& h) {
        std::unique_ptr<Any> t(new Of<M>());
        Sink s;
        for (u64 x : h) t->step(x, s);
        return t;
    };
    std::vector<Item> v(1);
    v[0].o = proto.fresh(), v[0].twin = proto.fresh();
    std::string log = std::string(kind) + ":";
    size_t      steps = heavy ? 4 + c.r.below(8) : 6 + c.r.below(24);
    bool        made = false;
    c.in((u64)hash_str(kind));
    for (size_t q = 0; q < steps; q++)
    {
        size_t i = c.r.below(v.size());
        u64    act = c.r.below(20);
        if (!made && q >= 3 && act < 10 && c.r.below(2)) act = 10 + c.r.below(4);
        bool full = v.size() >= 4;
        if (act < 10)
        { // use
            if (v[i].gone) continue;
            u64  sd = c.r.next();
            Sink a, b;
            a.keep = b.keep = true;
            v[i].o->step(sd, a), v[i].twin->step(sd, b);
            v[i].hist.push_back(sd);
            c.in(sd);
            log += fmt(" use%zu", i);
            if (a.bad) { c.fail((std::string(a.why) + ":" + kind).c_str(), "%s (%s)", a.why.c_str(), log.c_str()); return; }
            if (a.h != b.h || a.bytes != b.bytes)
            {
                size_t k = 0;
                while (k < a.log.size() && k < b.log.size() && a.log[k] == b.log[k]) k++;
                c.fail((std::string("twin:") + kind).c_str(), "%s: object %zu and one with the same history that was never copied differ from output byte %zu on (%s)", kind, i, k, log.c_str());
                return;
            }
            c.out(&a.h, sizeof a.h);
        }
        else if (act < 14 && !full)
        { // a new object from an old one
            if (v[i].gone) continue;
            Item n;
            bool mv = act == 12;
            n.o    = act == 10 ? v[i].o->copy() : act == 11 ? v[i].o->grown() : mv ? v[i].o->move() : v[i].o->fresh();
            if (act == 13) n.o->assign(*v[i].o);
            n.twin = replay(v[i].hist), n.hist = v[i].hist;
            if (mv) v[i].gone = true;
            log += fmt(" %s%zu", act == 10 ? "copy" : act == 11 ? "vector" : mv ? "move" : "assign-new", i);
            c.tag(act == 10 ? "copy constructed" : act == 11 ? "moved by a vector" : mv ? "move constructed" : "assigned to a new object");
            if (v[i].hist.empty()) c.tag("copied before its first use");
            v.push_back(std::move(n));
            made = true;
        }
        else if (act < 17 || act == 19)
        { // over an old one
            size_t j = c.r.below(v.size());
            if (v[i].gone) continue;
            if (i == j)
            {
                v[i].o->self();
                log += fmt(" self%zu", i);
                c.tag("assigned to itself");
                continue;
            }
            if (act == 19)
            {
                if (v[j].gone) continue;
                v[i].o->swap(*v[j].o);
                std::swap(v[i].twin, v[j].twin), std::swap(v[i].hist, v[j].hist);
                log += fmt(" swap%zu,%zu", i, j);
                c.tag("swapped");
                continue;
            }
            bool mv = act == 16;
            if (v[j].gone) c.tag("assigned to a moved-from object");
            if (mv) v[j].o->move_assign(*v[i].o), v[i].gone = true;
            else v[j].o->assign(*v[i].o);
            v[j].gone = false, v[j].hist = v[i].hist, v[j].twin = replay(v[i].hist);
            log += fmt(" %s%zu<-%zu", mv ? "moveover" : "over", j, i);
            c.tag("assigned over a used object");
        }
        else if (v.size() > 1)
        { // the end of one
            bool last = true;
            for (size_t k = 0; k < v.size(); k++) last = last && (k == i || v[k].gone);
            if (last) continue;
            log += fmt(" drop%zu", i);
            c.tag("original or copy destroyed");
            v.erase(v.begin() + (long)i);
        }
    }
    c.sample(log.substr(0, 300));
    c.tag(kind);
}
typedef void (*Life)(Ctx&, const char*, bool);
struct Kind { const char* name; Life f; };
#define MODES(C, N) \
    {N "-ECB-encryptor", life<MMode<bm::EcbEncryptor<C>, 0, C::USER_KEY_LEN>>}, {N "-ECB-decryptor", life<MMode<bm::EcbDecryptor<C>, 0, C::USER_KEY_LEN>>}, \
    {N "-CBC-encryptor", life<MMode<bm::CbcEncryptor<C>, 1, C::USER_KEY_LEN>>}, {N "-CBC-decryptor", life<MMode<bm::CbcDecryptor<C>, 1, C::USER_KEY_LEN>>}, \
    {N "-CFB-encryptor", life<MMode<bm::CfbEncryptor<C>, 1, C::USER_KEY_LEN>>}, {N "-CFB-decryptor", life<MMode<bm::CfbDecryptor<C>, 1, C::USER_KEY_LEN>>}, \
    {N "-OFB-encryptor", life<MMode<bm::OfbEncryptor<C>, 1, C::USER_KEY_LEN>>}, {N "-OFB-decryptor", life<MMode<bm::OfbDecryptor<C>, 1, C::USER_KEY_LEN>>}, \
    {N "-CTR-encryptor", life<MMode<bm::CtrEncryptor<C>, 1, C::USER_KEY_LEN>>}, {N "-CTR-decryptor", life<MMode<bm::CtrDecryptor<C>, 1, C::USER_KEY_LEN>>}, \
    {N "-GCM-encryptor", life<MMode<bm::GcmEncryptor<C>, 2, C::USER_KEY_LEN>>}, {N "-GCM-decryptor", life<MMode<bm::GcmDecryptor<C>, 3, C::USER_KEY_LEN, bm::GcmEncryptor<C>>>}
const Kind LIGHT[] = {
    {"SM3", life<MSm3>}, {"HMAC-SM3", life<MHmac>}, {"GHASH", life<MGhash>},
    {"SM4", life<MCipher<sm4::SM4>>}, {"AES-128", life<MCipher<aes::AES128>>}, {"AES-192", life<MCipher<aes::AES192>>}, {"AES-256", life<MCipher<aes::AES256>>},
    MODES(sm4::SM4, "SM4"), MODES(aes::AES128, "AES-128"), MODES(aes::AES192, "AES-192"), MODES(aes::AES256, "AES-256"),
};
const Kind HEAVY[] = {{"SM2-private-key", life<MPrv2>}, {"SM2-public-key", life<MPub2>}, {"SM9-master-key", life<MMst9>}, {"SM9-master-public-key", life<MPub9>}, {"SM9-user-key", life<MPrv9>}};
} // namespace
VF_CASE("C35", "objects", 55 * 400, 0.15, 20, [](Ctx& c) {
    const size_t n = sizeof LIGHT / sizeof *LIGHT;
    const Kind&  k = LIGHT[c.idx % n];
    k.f(c, k.name, false);
});
VF_CASE("C35", "keys", 5 * 140, 0.25, 20, [](Ctx& c) {
    const Kind& k = HEAVY[c.idx % 5];
    k.f(c, k.name, true);
});
VF_REQ("C35", "SM3", "HMAC-SM3", "GHASH", "SM4", "AES-256", "SM4-GCM-encryptor", "AES-256-CTR-encryptor", "SM2-private-key", "SM2-public-key", "SM9-master-key", "SM9-master-public-key", "SM9-user-key",
       "copy constructed", "moved by a vector", "move constructed", "assigned to a new object", "assigned over a used object", "assigned to itself", "assigned to a moved-from object", "swapped", "original or copy destroyed",
       "copied before its first use");
VF_MAIN
