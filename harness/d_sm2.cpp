// C14..C19: SM2 curve, keys, signatures and encryption
#include "hookhash.h"
#include "sm2ref.h"
#include <gmlib/sm2/sm2.h>
#include <gmlib/sm3/sm3.h>
using namespace vf;
using namespace sm2r;
namespace si = sm2::internal;

static Bytes aff(const si::sm2_ec_a P)
{
    Bytes o(64);
    si::sm2_ec_a_to_bytes04(o.data(), P);
    return o;
}
static Bytes aff_j(const si::sm2_ec_j P)
{
    si::sm2_ec_a a;
    si::sm2_ec_j_to_a(a, P);
    return aff(a);
}
static void set_a(si::sm2_ec_a R, const Pt& P)
{
    Bytes x = P.xy();
    si::sm2_ec_a_from_bytes04(R, x.data());
}
// a Jacobian representation (x z^2, y z^3, z)
static void set_j(si::sm2_ec_j R, const Pt& P, const Z& z)
{
    Z z2 = mulmod(z, z, p());
    si::sm2_fp_from_bytes(R[0], mulmod(P.x, z2, p()).to(32).data());
    si::sm2_fp_from_bytes(R[1], mulmod(P.y, mulmod(z2, z, p()), p()).to(32).data());
    si::sm2_fp_from_bytes(R[2], z.to(32).data());
}
static Z rndz(Rnd& r)
{
    Z z = r.chance(1, 3) ? Z(1) : rndmod(r, p());
    return z.zero() ? Z(1) : z;
}
static std::string ps(const Pt& P) { return P.inf ? "inf" : "(" + P.x.str() + "," + P.y.str() + ")"; }
static void ctx(Ctx& c, const Pt& P) { c.in(P.xy()); }

// ---------------------------------------------------------------- C14
VF_CASE("C14", "scalar-multiplication", 4000, 0.12, 12, [](Ctx& c) {
    Z    k  = c.idx < 260 ? (c.idx < 20 ? Z(1 + c.idx) : c.idx < 40 ? n() - Z(c.idx - 19) : pow2((int)(c.idx - 20) % 256) % n()) : rndscalar(c.r);
    if (k.zero()) k = Z(1);
    Pt   P  = rndpt(c.r), e = mul(k, P), eg = mulg(k);
    Buf  kb(k.to(32), c.r.below(9));
    ctx(c, P), c.in(kb.bytes());
    c.sample("k = " + k.str() + ", P = " + ps(P));
    Z k3 = k * Z(3);
    if (k3 >= pow2(257)) c.tag("3k passes 2^257");
    else if (k3 >= pow2(256)) c.tag("3k passes 2^256");
    else c.tag("3k below 2^256");
    if (P.x >= n()) c.tag("x in [n,p)");
    si::sm2_ec_a A;
    si::sm2_ec_j J;
    set_a(A, P);
    si::sm2_ec_j_mul_a(J, kb, A);
    c.eq("mul", aff_j(J), e.xy(), "[" + k.str() + "]" + ps(P));
    c.out(aff_j(J));
    c.eq("mul-operand", aff(A), P.xy(), "operand of mul_a changed");
    si::sm2_ec_j_mul_g(J, kb);
    c.eq("mul-g", aff_j(J), eg.xy(), "[" + k.str() + "]G");
    c.out(aff_j(J));
    si::sm2_ec_t u; // result over operand, as the library itself calls it
    set_a(u.a, P);
    si::sm2_ec_j_mul_a(u.j, kb, u.a);
    si::sm2_ec_j_to_a(u.a, u.j);
    c.eq("mul-alias", aff(u.a), e.xy(), "[" + k.str() + "]" + ps(P) + " over its operand");
    if (kb.bytes() != k.to(32)) c.fail("mul-operand", "scalar changed");
});
VF_CASE("C14", "group-law", 8000, 0.15, 12, [](Ctx& c) {
    Pt P = rndpt(c.r), Q;
    switch (c.r.below(6))
    {
    case 0: Q = P; break;
    case 1: Q = add(P, P); break;
    case 2: Q = neg(add(P, P)); break;
    case 3: Q = add(P, G()); break;
    default: Q = rndpt(c.r);
    }
    if (Q.inf) Q = P;
    Z z1 = rndz(c.r), z2 = c.r.chance(1, 4) ? z1 : rndz(c.r);
    ctx(c, P), ctx(c, Q), c.in(z1.to(32)), c.in(z2.to(32));
    c.sample(ps(P) + " + " + ps(Q));
    Pt           e = add(P, Q), d = add(P, P);
    si::sm2_ec_j a, b, r;
    si::sm2_ec_a qa;
    std::string  w = ps(P) + " z=" + z1.str() + " and " + ps(Q) + " z=" + z2.str();
    set_j(a, P, z1), set_j(b, Q, z2), set_a(qa, Q);
    bool same = P == Q;
    if (same) c.tag("equal points");
    if (!e.inf)
    {
        si::sm2_ec_j_add(r, a, b);
        c.eq("add", aff_j(r), e.xy(), "sum of " + w);
        c.out(aff_j(r));
        si::sm2_ec_j_add(a, a, b);
        c.eq("add-alias", aff_j(a), e.xy(), "sum over first of " + w);
        set_j(a, P, z1);
        si::sm2_ec_j_add(b, a, b);
        c.eq("add-alias", aff_j(b), e.xy(), "sum over second of " + w);
        set_j(b, Q, z2);
        si::sm2_ec_j_add_a(r, a, qa);
        c.eq("add-mixed", aff_j(r), e.xy(), "mixed sum of " + w);
        si::sm2_ec_j_add_a(a, a, qa);
        c.eq("add-mixed", aff_j(a), e.xy(), "mixed sum over first of " + w);
        set_j(a, P, z1);
        if (si::sm2_ec_j_is_inf(r)) c.fail("is-inf", "finite sum called infinite: %s", w.c_str());
    }
    si::sm2_ec_j_dbl(r, a);
    c.eq("dbl", aff_j(r), d.xy(), "double of " + w);
    c.out(aff_j(r));
    si::sm2_ec_j_dbl(a, a);
    c.eq("dbl", aff_j(a), d.xy(), "double in place of " + w);
    set_j(a, P, z1);
    si::sm2_ec_j_neg(r, a);
    c.eq("neg", aff_j(r), neg(P).xy(), "negation of " + w);
    if (si::sm2_ec_j_equal(r, a)) c.fail("equal", "point equal to its negation: %s", w.c_str());
    si::sm2_ec_j_neg(r, r);
    c.eq("neg", aff_j(r), P.xy(), "double negation of " + w);
    si::sm2_ec_a_neg(qa, qa);
    c.eq("neg", aff(qa), neg(Q).xy(), "affine negation of " + w);
    if (si::sm2_ec_j_equal(a, b) != same) c.fail("equal", "comparison of %s", w.c_str());
    si::sm2_ec_j other;
    set_j(other, P, rndz(c.r));
    if (!si::sm2_ec_j_equal(a, other)) c.fail("equal", "same point in two representations: %s", w.c_str());
    si::sm2_ec_j_normal(r, a);
    c.eq("normal", aff_j(r), P.xy(), "normalised " + w);
    if (!si::sm2_fp_equal_one(r[2])) c.fail("normal", "normalised z is not one");
    c.eq("to-affine", aff_j(a), P.xy(), "affine of " + w);
    si::sm2_ec_j_cpy(r, a);
    c.eq("copy", aff_j(r), P.xy(), "copy of " + w);
    si::sm2_ec_j_set_inf(r);
    if (!si::sm2_ec_j_is_inf(r) || si::sm2_ec_j_is_inf(a)) c.fail("is-inf", "is_inf");
    set_a(qa, Q);
    si::sm2_ec_j_from_a(r, qa);
    c.eq("from-affine", aff_j(r), Q.xy(), "from affine");
    if (!si::sm2_ec_a_check(qa)) c.fail("check", "point refused: %s", w.c_str());
    Pt bad = Q;
    bad.y = (Q.y + Z(1 + c.r.below(3))) % p();
    if (!on(bad.x, bad.y))
    {
        set_a(qa, bad);
        if (si::sm2_ec_a_check(qa)) c.fail("check", "point off the curve accepted: %s", ps(bad).c_str());
    }
});
// decode with the library; returns consumed or 0
static size_t ldec(Ctx& c, const Bytes& in, Bytes& out)
{
    Buf          b(in, c.r.below(5));
    si::sm2_ec_a R;
    size_t       rn = 0x5a5a;
    int          rc = si::sm2_ec_a_from_bytes(R, &rn, b, in.size());
    if (b.bytes() != in) c.fail("decode-input", "decoding changed its input");
    if (rc) return 0;
    out = aff(R);
    return rn;
}
static void chk_dec(Ctx& c, const Bytes& in, const char* what)
{
    Pt     P;
    Bytes  o;
    size_t e = dec(P, in.data(), in.size()), g = ldec(c, in, o);
    c.out((u64)g), c.out(o);
    c.tag(e ? "decodings accepted" : "decodings refused");
    if (!e && g) c.fail((std::string("decode-accepts-") + what).c_str(), "%s accepted: %s", what, hex(in).c_str());
    else if (e && !g) c.fail("decode-refuses", "%s refused: %s", what, hex(in).c_str());
    else if (e && g != e) c.fail("decode-length", "%s: %zu bytes consumed instead of %zu: %s", what, g, e, hex(in).c_str());
    else if (e) c.eq("decode", o, P.xy(), fmt("decoding %s of %s", what, hex(in).c_str()));
}
VF_CASE("C14", "encode", 4000, 0.2, 12, [](Ctx& c) {
    Pt P = rndpt(c.r);
    ctx(c, P);
    si::sm2_ec_a A;
    set_a(A, P);
    Buf u(65, c.r.below(5)), z(33, c.r.below(5)), m(65, c.r.below(5));
    si::sm2_ec_a_to_bytes_uncompressed(u, A);
    si::sm2_ec_a_to_bytes_compressed(z, A);
    si::sm2_ec_a_to_bytes_mix(m, A);
    c.eq("encode-uncompressed", u.bytes(), enc(P, 0), "uncompressed form");
    c.eq("encode-compressed", z.bytes(), enc(P, 1), "compressed form");
    c.eq("encode-hybrid", m.bytes(), enc(P, 2), "hybrid form");
    c.out(u.bytes()), c.out(z.bytes()), c.out(m.bytes());
    if (!u.ok() || !z.ok() || !m.ok()) c.fail("encode-overrun", "encoding wrote outside its buffer");
    c.sample("three forms of " + ps(P));
    for (int f = 0; f < 3; f++)
    {
        Bytes e = enc(P, f);
        chk_dec(c, e, "canonical encoding");
        app(e, c.r.bytes(1 + c.r.below(40)));
        chk_dec(c, e, "encoding followed by other bytes");
    }
});
VF_CASE("C14", "decode-hostile", 8000, 0.2, 12, [](Ctx& c) {
    Pt    P = rndpt(c.r);
    Bytes e = enc(P, (int)c.r.below(3));
    ctx(c, P);
    int k = (int)(c.idx % 10);
    c.in((u64)k);
    c.sample("altered encoding of " + ps(P));
    switch (k)
    {
    case 0: // every truncation
        for (size_t l = 0; l < e.size(); l++) chk_dec(c, Bytes(e.begin(), e.begin() + l), "truncated");
        break;
    case 1: // all prefixes
        for (int t = 0; t < 256; t++) { e[0] = (u8)t; chk_dec(c, e, "prefix"); }
        break;
    case 2: // unreduced x
    {
        for (int i = 0; i < 50; i++)
        {
            Pt t = lift(Z(c.r.below(1000)), (int)c.r.below(2));
            if (t.inf) continue;
            for (int f = 0; f < 3; f++)
            {
                Bytes b = enc(t, f), x = (t.x + p()).to(32);
                std::memcpy(&b[1], x.data(), 32);
                chk_dec(c, b, "unreduced x");
            }
            c.tag("unreduced coordinate");
            break;
        }
        break;
    }
    case 3: // unreduced y
    {
        Pt t;
        do t = rndpt(c.r);
        while (t.y >= pow2(256) - p());
        for (int i = 0; i < 200 && t.y >= pow2(256) - p(); i++) t = rndpt(c.r);
        break;
    }
    case 4: // wrong parity in the hybrid form
        e = enc(P, 2), e[0] ^= 1;
        c.tag("hybrid parity");
        chk_dec(c, e, "wrong hybrid parity");
        break;
    case 5: // bit flips
        for (int i = 0; i < 24; i++)
        {
            Bytes b = e;
            b[c.r.below(b.size())] ^= (u8)(1 << c.r.below(8));
            chk_dec(c, b, "bit flip");
        }
        break;
    case 6: // compressed with an arbitrary x
    {
        Bytes b = c.r.ebytes(33);
        b[0] = (u8)(2 + c.r.below(2));
        chk_dec(c, b, "arbitrary x");
        Z x = c.r.below(2) ? p() + Z(c.r.below(4)) - Z(2) : pow2(256) - Z(1 + c.r.below(3));
        Bytes xb = x.to(32);
        std::memcpy(&b[1], xb.data(), 32);
        chk_dec(c, b, "x around p");
        break;
    }
    case 7: // garbage
    {
        Bytes b = c.r.ebytes(c.r.below(70));
        if (!b.empty() && c.r.below(2)) b[0] = (u8)(2 + c.r.below(6));
        chk_dec(c, b, "garbage");
        break;
    }
    case 8: // coordinates swapped, zero, negated
    {
        Bytes b = cat({{4}, P.y.to(32), P.x.to(32)});
        chk_dec(c, b, "swapped coordinates");
        chk_dec(c, Bytes(65, 0), "zeros");
        b = Bytes(65, 0), b[0] = 4;
        chk_dec(c, b, "zero point");
        chk_dec(c, enc(neg(P), 0), "negated point");
        b[0] = 6;
        chk_dec(c, b, "zero point");
        break;
    }
    default: // x on the twist
    {
        Z x = rndmod(c.r, p());
        while (!lift(x, 0).inf) x = (x + Z(1)) % p();
        chk_dec(c, cat({{(u8)(2 + c.r.below(2))}, x.to(32)}), "x without point");
        chk_dec(c, cat({{4}, x.to(32), rndmod(c.r, p()).to(32)}), "x without point");
        break;
    }
    }
    if (k == 3)
    {
        static const char* sy[] = {"9C17043EFFE1A805A74A9A5E70B9D659705D3242094A566DC016F49311178D1F", "3B404F94E46027D11401987CD5ACB2953E4BFF91A7D856B40986700015B4F8A6", "1800FFCB38194CE0905766DFD6B9CE196095203D481BA8E4E614749D615CD506"};
        int i = (int)c.r.below(3);
        Z   y((u64)(1 + i)), x = Z::hex(sy[i]);
        Bytes b = cat({{4}, x.to(32), (y + p()).to(32)});
        chk_dec(c, b, "unreduced y");
        b[0] = (u8)(6 + c.r.below(2));
        chk_dec(c, b, "unreduced y");
    }
});
VF_REQ("C14", "3k passes 2^257", "3k passes 2^256", "3k below 2^256", "x in [n,p)", "equal points", "decodings accepted", "decodings refused", "unreduced coordinate", "hybrid parity");

// ---------------------------------------------------------------- keys
typedef sm3::SM3 SM3;
static Bytes h_sm3(const Bytes& b) { return ossl::sm3(b); }
template <class H> struct Ref { static Bytes f(const Bytes& b) { return h_sm3(b); } };
template <size_t D> struct Ref<HookHash<D>> { static Bytes f(const Bytes& b) { return HookHash<D>::eval(b); } };
template <class H> using Prv = sm2::SM2PrivateKey<H>;
template <class H> using Pub = sm2::SM2PublicKey<H>;
static const Bytes DEFID = {'1', '2', '3', '4', '5', '6', '7', '8', '1', '2', '3', '4', '5', '6', '7', '8'};

template <class H>
static Bytes pubxy(const Pub<H>& k)
{
    Bytes o(64);
    k.get_pub(o.data(), o.data() + 32);
    return o;
}
template <class H>
static Bytes prvd(const Prv<H>& k)
{
    Bytes o(32);
    k.get_priv(o.data());
    return o;
}
// the key in force is d: exported halves match and a signature verifies under the reference
template <class H>
static void in_force(Ctx& c, const char* key, const Prv<H>& k, const Z& d, const std::string& what)
{
    Pt P = mulg(d);
    c.eq(key, prvd(k), d.to(32), what + ": private half");
    c.eq(key, pubxy(k.fetch_pub()), P.xy(), what + ": public half");
    ScriptRng g;
    g.use_rest = true, g.budget = 4, g.rest = Rnd(c.r.next());
    Bytes m = c.r.bytes(20), s(64);
    k.sign(s.data(), m.data(), m.size(), g);
    Z e = msg_e(Ref<H>::f, DEFID, P, m);
    if (!verify(P, e, Z::bytes(s.data(), 32), Z::bytes(s.data() + 32, 32))) c.fail(key, "%s: signature made with the key does not verify for d = %s", what.c_str(), d.str().c_str());
    if (!k.verify(s.data(), m.data(), m.size()) || !k.fetch_pub().verify(s.data(), m.data(), m.size())) c.fail(key, "%s: own signature refused, d = %s", what.c_str(), d.str().c_str());
}
static Z rnd_d(Rnd& r) { Z d = rndscalar(r); return d > n() - Z(2) ? n() - Z(2) : d; }
// candidate 256-bit strings around the limits
static Z cand(Rnd& r)
{
    switch (r.below(9))
    {
    case 6: return rndscalar(r) - Z(1);
    case 0: return Z(r.below(4));
    case 1:
    case 2: return n() + Z(3) - Z(r.below(7));
    case 3: return pow2(256) - Z(1 + r.below(4));
    case 4: return p() + Z(1) - Z(r.below(3));
    case 5: return n() + Z::bytes(r.bytes(27));
    default: return Z::bytes(r.ebytes(32));
    }
}
// a key to be held before `v`: unrelated, the same, its negative or one that shares bytes with it
static Z before(Ctx& c, const Z& v)
{
    Z w = Z::bytes(c.r.renew(v.to(32), rnd_d(c.r).to(32)));
    if (c.r.chance(1, 4) && v < n()) w = n() - v;
    if (w.zero() || w > n() - Z(2)) w = rnd_d(c.r);
    if (w == v) c.tag("set over the same key");
    else if (w.to(32)[0] == v.to(32)[0] || w + v == n()) c.tag("set over a related key");
    return w;
}
VF_CASE("C15", "set-private", 3000, 0.1, 10, [](Ctx& c) {
    Z    v = c.idx < 10 ? n() + Z(4) - Z(c.idx) : c.idx < 14 ? Z(c.idx - 10) : cand(c.r);
    bool ok = !v.zero() && v <= n() - Z(2);
    Z    d0 = before(c, v);
    Prv<SM3> k(d0.to(32).data());
    c.in(v.to(32)), c.in(d0.to(32));
    c.sample("set " + v.str() + " over " + d0.str());
    c.tag(ok ? "admissible values" : "inadmissible values");
    if (v == n() - Z(1)) c.tag("n-1");
    if (v == n() - Z(2)) c.tag("n-2");
    bool thr = false;
    Buf  vb(v.to(32), c.r.below(5));
    try { k.set_priv(vb); } catch (std::exception&) { thr = true; }
    c.out((u64)thr);
    if (thr == ok) c.fail(ok ? "refuses-valid" : "accepts-invalid", "private key %s was %s", v.str().c_str(), thr ? "refused" : "accepted");
    else in_force(c, thr ? "old-key-lost" : "key-mismatch", k, ok ? v : d0, thr ? "after a refused private key" : "after set_priv");
    // the constructor follows the same rule
    bool thr2 = false;
    try
    {
        Prv<SM3> x(vb.p());
        if (ok) c.eq("key-mismatch", pubxy(x.fetch_pub()), mulg(v).xy(), "constructor");
    }
    catch (std::exception&) { thr2 = true; }
    if (thr2 == ok) c.fail(ok ? "refuses-valid" : "accepts-invalid", "constructor with private key %s was %s", v.str().c_str(), thr2 ? "refused" : "accepted");
});
VF_CASE("C15", "generate", 3000, 0.1, 10, [](Ctx& c) {
    ScriptRng g;
    Z         v = c.idx < 12 ? n() + Z(4) - Z(c.idx) : c.idx < 16 ? Z(c.idx - 12) : c.idx < 20 ? pow2(256) - Z(c.idx - 15) : cand(c.r);
    size_t    reps = 1 + c.r.below(3);
    for (size_t i = 0; i < reps; i++) g.script.push_back(v.to(32));
    g.use_rest = true, g.budget = 40, g.rest = Rnd(c.r.next()); // a generator may draw again
    c.in(v.to(32)), c.in(reps);
    c.sample("random source returns " + v.str());
    if (v == n() - Z(2)) c.tag("source returns n-2");
    Prv<SM3> k(rnd_d(c.r).to(32).data());
    k.gen_priv(g);
    Z d = Z::bytes(prvd(k));
    c.out(prvd(k));
    if (d.zero() || d > n() - Z(2)) c.fail("generated-out-of-range", "source value %s gave private key %s", v.str().c_str(), d.str().c_str());
    else in_force(c, "generated-mismatch", k, d, "after gen_priv with source value " + v.str());
    ScriptRng g2 = g;
    g2.pos = 0;
    Prv<SM3> k2(g2);
    if (prvd(k2) != prvd(k)) { Z d2 = Z::bytes(prvd(k2)); if (d2.zero() || d2 > n() - Z(2) || pubxy(k2.fetch_pub()) != mulg(d2).xy()) c.fail("generated-mismatch", "generating constructor, source value %s", v.str().c_str()); }
});
VF_CASE("C15", "generate-failing", 1500, 0.1, 10, [](Ctx& c) {
    // a source that fails, part of its bytes delivered: whatever the object holds then is a key, both halves
    struct Part : rng::Rng
    {
        Bytes  w;
        size_t n;
        const char* name() const noexcept override { return "failing"; }
        void gen(void* o, size_t l) override
        {
            memcpy(o, w.data(), std::min({n, l, w.size()}));
            throw std::runtime_error("no random bytes");
        }
    } g;
    Z v = cand(c.r), d0 = before(c, v);
    g.w = v.to(32), g.n = c.r.below(33);
    c.in(g.w), c.in(d0.to(32)), c.in(g.n);
    Prv<SM3> k(d0.to(32).data());
    try { k.gen_priv(g); } catch (...) {}
    Z d = Z::bytes(prvd(k));
    if (d.zero() || d > n() - Z(2)) c.fail("generated-out-of-range", "private key %s after a generation whose source failed", d.str().c_str());
    else in_force(c, "generated-mismatch", k, d, "after a generation whose source failed");
    c.tag("source failed part way");
});
VF_CASE("C15", "key-bits", 1, 1, 1, [](Ctx& c) {
    // every bit of a generated key can be 0 and can be 1, and different draws give different keys
    Bytes     all1(32, 0xff), all0(32, 0);
    std::set<Bytes> seen;
    ScriptRng g;
    g.use_rest = true, g.budget = 10000, g.rest = c.r;
    Prv<SM3> k;
    for (int i = 0; i < 120; i++)
    {
        k.gen_priv(g);
        Bytes d = prvd(k);
        seen.insert(d);
        for (int b = 0; b < 32; b++) all1[b] &= d[b], all0[b] |= d[b];
    }
    c.in(all1);
    if (!sm2r::all0(all1) || all0 != Bytes(32, 0xff)) c.fail("key-bits", "over 120 keys some bit is constant: and %s, or %s", hex(all1).c_str(), hex(all0).c_str());
    if (seen.size() != 120) c.fail("key-bits", "%zu distinct keys out of 120 draws", seen.size());
});
VF_CASE("C15", "set-public", 4000, 0.15, 10, [](Ctx& c) {
    Z        d0 = rnd_d(c.r);
    Pt       P0 = mulg(d0), P = rndpt(c.r);
    if (c.r.chance(1, 4)) P0 = P, P0.y = p() - P.y, c.tag("set over the negative point");
    else if (c.r.chance(1, 8)) P0 = P;
    Pub<SM3> k(P0.x.to(32).data(), P0.y.to(32).data());
    Z        x = P.x, y = P.y;
    switch (c.idx % 8)
    {
    case 0: case 1: break;
    case 2: x = x < pow2(256) - p() ? x + p() : Z(1); break;
    case 3: y = y < pow2(256) - p() ? y + p() : (y + Z(1)) % p(); break;
    case 4: std::swap(x, y); break;
    case 5: { Bytes b = P.xy(); b[c.r.below(64)] ^= (u8)(1 << c.r.below(8)); x = Z::bytes(b.data(), 32), y = Z::bytes(b.data() + 32, 32); break; }
    case 6: x = Z(c.r.below(2)), y = Z(c.r.below(2)); break;
    default:
    { // a point with a small coordinate written unreduced
        for (;;)
        {
            P = rndpt(c.r);
            if (P.x < Z(200)) { x = P.x + p(), y = P.y; break; }
            if (P.y < Z(200)) { x = P.x, y = P.y + p(); break; }
        }
        c.tag("unreduced coordinate");
    }
    }
    bool ok = x < p() && y < p() && on(x, y), thr = false;
    Buf  xb(x.to(32), c.r.below(5)), yb(y.to(32), c.r.below(5));
    c.in(xb.bytes()), c.in(yb.bytes());
    c.sample("set " + x.str() + "," + y.str());
    c.tag(ok ? "valid points" : "invalid points");
    try { k.set_pub(xb, yb); } catch (std::exception&) { thr = true; }
    c.out((u64)thr);
    if (thr == ok) c.fail(ok ? "refuses-point" : "accepts-bad-point", "public key %s,%s was %s", x.str().c_str(), y.str().c_str(), thr ? "refused" : "accepted");
    else
    {
        const Pt& F = thr ? P0 : P;
        Pt        E = F;
        if (!thr) E.x = x, E.y = y;
        c.eq(thr ? "old-key-lost" : "key-mismatch", pubxy(k), E.xy(), "public key in force");
        // and it is this key that operations use
        ScriptRng g;
        g.script.push_back(c.r.bytes(32));
        g.use_rest = true, g.budget = 50;
        Bytes m = c.r.bytes(1 + c.r.below(20)), out(97 + m.size()), e;
        size_t cl = 0;
        k.encrypt(out.data(), &cl, m.data(), m.size(), g);
        if (enc1(h_sm3, E, m, draw_k(g.script[0]), 0, e)) c.eq(thr ? "old-key-lost" : "key-mismatch", out, e, "encryption under the public key in force");
    }
    bool thr2 = false;
    try { Pub<SM3> q(xb.p(), yb.p()); } catch (std::exception&) { thr2 = true; }
    if (thr2 == ok) c.fail(ok ? "refuses-point" : "accepts-bad-point", "constructor with public key %s,%s was %s", x.str().c_str(), y.str().c_str(), thr2 ? "refused" : "accepted");
});
VF_REQ("C15", "source failed part way", "admissible values", "inadmissible values", "n-1", "n-2", "source returns n-2", "valid points", "invalid points", "unreduced coordinate", "set over the same key", "set over a related key", "set over the negative point");

// ---------------------------------------------------------------- signatures
static Bytes rnd_id(Ctx& c, bool& dflt)
{
    dflt = false;
    switch (c.r.below(8))
    {
    case 0: return {};
    case 1: return c.r.bytes(8191);
    case 2: return c.r.bytes(c.r.len(8191, 64));
    case 3:
    case 4: dflt = true; return DEFID;
    default: return c.r.ebytes(c.r.below(100));
    }
}
template <class H>
static void sign_case(Ctx& c, const Z& d, const Bytes& m, const Bytes& id, bool dflt, const std::vector<Bytes>& draws, size_t expect_draws)
{
    Pt       P = mulg(d);
    Prv<H>   k(d.to(32).data());
    Z        e = msg_e(Ref<H>::f, id, P, m), r, s;
    size_t   used = 0;
    bool     ok   = false;
    while (used < draws.size() && !ok) ok = sign1(d, e, draw_k(draws[used++]), r, s);
    if (!ok) { c.tag("scripts without an admissible value"); return; }
    if (expect_draws && used != expect_draws) { fprintf(stderr, "harness: expected %zu draws, reference used %zu\n", expect_draws, used); exit(3); }
    ScriptRng g;
    g.script = draws;
    Buf mb(m, c.r.below(5)), ib(id, c.r.below(5)), sb(64, c.r.below(5));
    try
    {
        if (dflt) k.sign(sb, mb, m.size(), g);
        else k.sign(sb, mb, m.size(), g, ib, id.size());
    }
    catch (RngFailure&)
    {
        c.fail("sign-draws", "signing asked for more than %zu draws although draw %zu is admissible (d %s)", draws.size(), used, d.str().c_str());
        return;
    }
    Bytes ex = cat({r.to(32), s.to(32)});
    c.out(sb.bytes());
    c.eq("sign", sb.bytes(), ex, "signature with d = " + d.str() + ", k = " + draw_k(draws[used - 1]).str() + ", message " + hex(m).substr(0, 80));
    if (g.pos != used) c.fail("sign-draws", "signing took %zu draws, the first admissible value is draw %zu", g.pos, used);
    if (g.bytes != 32 * used) c.fail("sign-draws", "signing took %zu random bytes for %zu attempts", g.bytes, used);
    if (!sb.ok() || mb.bytes() != m || ib.bytes() != id) c.fail("sign-overrun", "signing wrote outside the signature");
    bool v1 = dflt ? k.verify(sb, mb, m.size()) : k.verify(sb, mb, m.size(), ib, id.size());
    Pub<H> pk(P.x.to(32).data(), P.y.to(32).data());
    bool v2 = dflt ? pk.verify(sb, mb, m.size()) : pk.verify(sb, mb, m.size(), ib, id.size());
    if (!v1 || !v2) c.fail("sign-verify", "own signature refused: d = %s, k = %s, %s", d.str().c_str(), draw_k(draws[used - 1]).str().c_str(), hex(sb.bytes()).c_str());
    if (used > 1) c.tag("signatures after a retry");
}
VF_CASE("C16", "sign", 3000, 0.12, 10, [](Ctx& c) {
    Z     d = rnd_d(c.r);
    bool  dflt;
    Bytes id = rnd_id(c, dflt), m = c.r.ebytes(c.r.len(c.r.chance(1, 20) ? 5000 : 200, 64));
    std::vector<Bytes> dr;
    for (int i = 0; i < 3; i++) dr.push_back(cand(c.r).to(32));
    c.in(d.to(32)), c.in(id), c.in(m), c.in(dr[0]);
    c.sample("d = " + d.str() + fmt(", identity of %zu bytes, message of %zu bytes", id.size(), m.size()));
    if (id.empty()) c.tag("empty identity");
    if (id.size() == 8191) c.tag("identity of 8191 bytes");
    sign_case<SM3>(c, d, m, id, dflt, dr, 0);
});
// choose the message hash so that the draw k is inadmissible in a given way
template <size_t D>
static void retry_case(Ctx& c)
{
    Z     d = rnd_d(c.r), k = rndscalar(c.r);
    Pt    K = mulg(k);
    Z     e;
    int   kind  = (int)c.r.below(3);
    bool  small = D <= 32 && c.r.chance(1, 4);
    if (small)
    { // a digest not reduced modulo n needs e < 2^256 - n: choose e, then d
        kind = 2, e = Z::bytes(c.r.bytes(27));
        d    = mulmod(k, invmod((e + K.x) % n(), n()), n());
        if (d.zero() || d + Z(1) == n()) { c.nontrivial = false; return; }
    }
    Pt P = mulg(d);
    if (small) {}
    else if (kind == 0) e = (n() - K.x % n()) % n();                                      // r = 0
    else if (kind == 1) e = (n() + n() - k - K.x % n()) % n();                       // r + k = n
    else e = (mulmod(k, invmod(d, n()), n()) + n() - K.x % n()) % n();               // s = 0
    Bytes m = c.r.bytes(c.r.below(60)), id = c.r.bytes(c.r.below(30));
    Bytes dig(D);
    { // a digest congruent to e; sometimes not reduced
        Z v = e;
        if (D > 32) v = v + n() * Z::bytes(c.r.bytes(D - 33));
        else if ((small || c.r.chance(1, 2)) && v + n() < pow2(8 * (int)D)) v = v + n(), c.tag("digest above n");
        if (v >= pow2(8 * (int)D)) { c.nontrivial = false; return; }
        dig = v.to(D);
    }
    Bytes z = HookHash<D>::eval(cat({{(u8)(id.size() * 8 >> 8), (u8)(id.size() * 8)}, id, a().to(32), b().to(32), G().xy(), P.xy()}));
    Bytes zm = cat({z, m});
    HookGuard hg([=](const Bytes& in, u8* out) { if (in != zm) return false; std::memcpy(out, dig.data(), D); return true; });
    size_t bad = 1 + c.r.below(4);
    std::vector<Bytes> dr;
    for (size_t i = 0; i < bad; i++)
    {
        Z kk = kind == 0 && c.r.chance(1, 2) ? n() - k : k;
        dr.push_back((kk - Z(1)).to(32));
        if (kk - Z(1) + n() - Z(1) < pow2(256) && c.r.chance(1, 2)) dr.back() = (kk - Z(1) + n() - Z(1)).to(32);
    }
    dr.push_back(c.r.bytes(32)), dr.push_back(c.r.bytes(32));
    c.in(d.to(32)), c.in(k.to(32)), c.in((u64)kind), c.in(bad);
    c.tag(kind == 0 ? "r = 0" : kind == 1 ? "r + k = n" : "s = 0");
    c.sample(fmt("%zu draws giving %s, then an admissible one", bad, kind == 0 ? "r = 0" : kind == 1 ? "r + k = n" : "s = 0"));
    sign_case<HookHash<D>>(c, d, m, id, false, dr, bad + 1);
}
VF_CASE("C16", "retries", 1500, 0.15, 10, [](Ctx& c) { retry_case<32>(c); });
VF_CASE("C16", "retries-wide-hash", 300, 0.2, 10, [](Ctx& c) { if (c.idx & 1) retry_case<48>(c); else retry_case<64>(c); });
VF_CASE("C16", "other-hashes", 300, 0.2, 10, [](Ctx& c) {
    Z     d = rnd_d(c.r);
    bool  dflt;
    Bytes id = rnd_id(c, dflt), m = c.r.ebytes(c.r.below(200));
    std::vector<Bytes> dr = {c.r.bytes(32), c.r.bytes(32)};
    c.in(d.to(32)), c.in(m), c.in(id);
    if (c.idx % 3 == 0) sign_case<HookHash<20>>(c, d, m, id, dflt, dr, 0);
    else if (c.idx % 3 == 1) sign_case<HookHash<48>>(c, d, m, id, dflt, dr, 0);
    else sign_case<HookHash<64>>(c, d, m, id, dflt, dr, 0);
});
VF_CASE("C16", "endurance", 4, 0.5, 6, [](Ctx& c) { // one key, many signatures
    Z        d = rnd_d(c.r);
    Pt       P = mulg(d);
    Prv<SM3> k(d.to(32).data());
    Pub<SM3> pk(P.x.to(32).data(), P.y.to(32).data());
    c.in(d.to(32));
    for (size_t i = 0; i < 300 && !c.failed; i++)
    {
        Bytes     m = c.r.bytes(c.r.below(40)), id = c.r.bytes(c.r.below(20)), sg(64);
        ScriptRng g;
        g.script = {c.r.bytes(32), c.r.bytes(32)};
        k.sign(sg.data(), m.data(), m.size(), g, id.data(), id.size());
        Z r, s;
        if (!sign1(d, msg_e(Ref<SM3>::f, id, P, m), draw_k(g.script[0]), r, s)) continue;
        c.eq("sign", sg, cat({r.to(32), s.to(32)}), fmt("signature %zu with one key", i));
        if (!pk.verify(sg.data(), m.data(), m.size(), id.data(), id.size())) c.fail("sign-verify", "signature %zu with one key refused by the public key", i);
    }
    c.tag("many signatures with one key");
}, 120);
VF_CASE("C16", "scales", 60, 0.3, 10, [](Ctx& c) {
    Z     d  = rnd_d(c.r);
    Bytes id = c.r.bytes(c.idx % 3 == 0 ? std::min<size_t>(8191, c.r.scale(c.idx / 3, 7, 13)) : c.r.below(40)), m = c.r.bytes(c.r.scale(c.idx, 10, 21));
    c.in(d.to(32)), c.in(id), c.in(m);
    c.tag("long messages");
    sign_case<SM3>(c, d, m, id, false, {c.r.bytes(32), c.r.bytes(32), c.r.bytes(32)}, 0);
}, 120);
VF_CASE("C16", "long-identity", 60, 0.5, 10, [](Ctx& c) {
    Prv<SM3> k(rnd_d(c.r).to(32).data());
    size_t   l = c.idx < 4 ? 8192 + c.idx : c.idx < 8 ? 16383 + (c.idx - 4) : 8192 + c.r.below(c.r.chance(1, 4) ? 200000 : 9000);
    Bytes    id = c.r.bytes(l), m = c.r.bytes(10), s(64, 0x33);
    c.in(l);
    c.sample(fmt("identity of %zu bytes", l));
    ScriptRng g;
    g.use_rest = true, g.budget = 5;
    bool thr = false;
    try { k.sign(s.data(), m.data(), m.size(), g, id.data(), id.size()); } catch (std::exception&) { thr = true; }
    if (!thr) c.fail("long-identity-accepted", "identity of %zu bytes accepted", l);
    c.tag("identities refused");
});
VF_REQ("C16", "r = 0", "r + k = n", "s = 0", "signatures after a retry", "empty identity", "identity of 8191 bytes", "identities refused", "digest above n");

// ---------------------------------------------------------------- C17
template <class H>
static void vchk(Ctx& c, const char* key, const Pt& P, const Bytes& id, const Bytes& m, const Bytes& sig, const std::string& what)
{
    Pub<H> k(P.x.to(32).data(), P.y.to(32).data());
    bool   e = id.size() < 8192 && verify(P, msg_e(Ref<H>::f, id, P, m), Z::bytes(sig.data(), 32), Z::bytes(sig.data() + 32, 32));
    Buf    sb(sig, c.r.below(5)), mb(m, c.r.below(5)), ib(id, c.r.below(5));
    bool   g = k.verify(sb, mb, m.size(), ib, id.size());
    c.out((u64)g);
    c.tag(e ? "valid signatures" : "invalid signatures");
    if (g != e) c.fail((std::string(e ? "refuses-" : "accepts-") + key).c_str(), "%s: verification returned %d; public key %s, signature %s, message %s", what.c_str(), g, ps(P).c_str(), hex(sig).c_str(), hex(m).substr(0, 100).c_str());
}
VF_CASE("C17", "altered", 700, 0.12, 12, [](Ctx& c) {
    Z     d = rnd_d(c.r), r, s;
    Pt    P = mulg(d);
    bool  dflt;
    Bytes id = rnd_id(c, dflt), m = c.r.ebytes(c.r.len(300, 64));
    if (id.size() > 300 && c.r.chance(3, 4)) id.resize(100);
    Z e = msg_e(h_sm3, id, P, m);
    while (!sign1(d, e, rndscalar(c.r), r, s)) {}
    Bytes sig = cat({r.to(32), s.to(32)});
    c.in(sig), c.in(m), c.in(id);
    c.sample("reference signature " + hex(sig) + " and alterations of it");
    vchk<SM3>(c, "valid", P, id, m, sig, "valid signature");
    for (int i = 0; i < 6; i++)
    {
        Bytes b = sig;
        b[c.r.below(64)] ^= (u8)(1 << c.r.below(8));
        vchk<SM3>(c, "bit-flip", P, id, m, b, "one bit flipped");
    }
    for (int i = 0; i < 6; i++)
    {
        Bytes       b = sig;
        std::string w;
        if (tamper(c.r, b, i % 3 == 1 ? 32 : 0, i % 3 == 0 ? 32 : 64, w)) vchk<SM3>(c, "several-bytes", P, id, m, b, w);
    }
    Bytes m2 = m, id2 = id;
    switch (c.r.below(4))
    {
    case 0: m2.push_back(0); break;
    case 1: if (!m2.empty()) { m2.pop_back(); break; } // fallthrough
    default: if (m2.empty()) m2.push_back(1); else m2[c.r.below(m2.size())] ^= (u8)(1 << c.r.below(8));
    }
    vchk<SM3>(c, "message", P, id, m2, sig, "message altered");
    if (id2.empty() || c.r.chance(1, 3)) id2.push_back(0);
    else if (c.r.chance(1, 2)) id2.pop_back();
    else id2[c.r.below(id2.size())] ^= (u8)(1 << c.r.below(8));
    vchk<SM3>(c, "identity", P, id2, m, sig, "identity altered");
    vchk<SM3>(c, "key", neg(P), id, m, sig, "other public key");
    vchk<SM3>(c, "key", rndpt(c.r), id, m, sig, "other public key");
    vchk<SM3>(c, "swapped", P, id, m, cat({s.to(32), r.to(32)}), "r and s swapped");
    vchk<SM3>(c, "negated", P, id, m, cat({r.to(32), (n() - s).to(32)}), "s negated");
    vchk<SM3>(c, "range", P, id, m, cat({r.to(32), Bytes(32, 0)}), "s = 0");
    vchk<SM3>(c, "range", P, id, m, cat({Bytes(32, 0), s.to(32)}), "r = 0");
    vchk<SM3>(c, "range", P, id, m, cat({n().to(32), s.to(32)}), "r = n");
    vchk<SM3>(c, "range", P, id, m, cat({r.to(32), n().to(32)}), "s = n");
    vchk<SM3>(c, "range", P, id, m, cat({r.to(32), (n() - r).to(32)}), "r + s = n");
    vchk<SM3>(c, "garbage", P, id, m, c.r.ebytes(64), "arbitrary bytes");
    vchk<SM3>(c, "garbage", P, id, m, Bytes(64, 0xff), "all ones");
});
// signatures built backwards: choose R, s, t and derive e, so that special values occur
VF_CASE("C17", "constructed", 2500, 0.12, 12, [](Ctx& c) {
    Pt    P, R;
    Z     d, r, s, e;
    int   kind = (int)(c.idx % 11);
    const Z N = n();
    d = rnd_d(c.r), P = mulg(d);
    bool  valid = true;
    Z     add_r, add_s; // multiples of n added to the numbers
    switch (kind)
    {
    case 0: // s in [1, 2^224) and s + n sent
    case 1:
        do
        {
            Z k = rndscalar(c.r);
            R   = mulg(k);
            s   = kind == 0 ? Z::bytes(c.r.bytes(27)) + Z(1) : rndscalar(c.r);
            r   = kind == 0 ? mulmod(k + N * N - s * (Z(1) + d), invmod(d, N), N) : Z::bytes(c.r.bytes(27)) + Z(1);
            if (kind == 1) s = mulmod(k + N * N - r * d, invmod(Z(1) + d, N), N);
        } while (r.zero() || s.zero());
        e = (r + N - R.x % N) % N;
        if (c.r.chance(2, 3)) (kind == 0 ? add_s : add_r) = N, c.tag("unreduced r or s");
        break;
    case 2: // [s]G = [t]P, the sum is a doubling
        s = rndscalar(c.r);
        if (d.one()) { c.nontrivial = false; return; }
        r = mulmod(mulmod(s, Z(1) + N - d, N), invmod(d, N), N);
        R = mulg((s + s) % N);
        e = (r + N - R.x % N) % N;
        c.tag("sum of equal points");
        break;
    case 3: // [s]G = -[t]P, the sum is the point at infinity
        s = rndscalar(c.r);
        r = mulmod(s * (Z(1) + d), invmod(N - d, N), N);
        e = r;
        c.tag("sum is infinity");
        break;
    case 4: // x1 in [n, p): reduction of x1 matters; the key's discrete logarithm is unknown
    case 5: // x1 = small or arbitrary special point
    {
        do R = rndpt(c.r);
        while (kind == 4 && R.x < N);
        Z t;
        do s = rndscalar(c.r), t = rndscalar(c.r);
        while ((P = mul(invmod(t, N), sm2r::add(R, neg(mulg(s))))).inf);
        r = (t + N - s) % N;
        if (r.zero()) { c.nontrivial = false; return; }
        e = (r + N + N - R.x) % N;
        if (kind == 4) c.tag("x1 in [n,p)");
        break;
    }
    case 6: // r + s = n with a matching x
    {
        s = rndscalar(c.r), r = N - s;
        R = mulg(s);
        e = (r + N - R.x % N) % N;
        c.tag("r + s = n");
        break;
    }
    case 7: // r = 0: e = -x1
        s = rndscalar(c.r), r = Z(0);
        R = mulg((s * (Z(1) + d)) % N);
        if (R.inf) { c.nontrivial = false; return; }
        e = (N - R.x % N) % N;
        c.tag("r = 0 with matching equation");
        break;
    case 8: // s = 0
        s = Z(0), r = rndscalar(c.r);
        R = mulg((r * d) % N);
        e = (r + N - R.x % N) % N;
        c.tag("s = 0 with matching equation");
        break;
    case 9: // extreme r, s
        r = c.r.chance(1, 2) ? Z(1 + c.r.below(3)) : N - Z(1 + c.r.below(3));
        s = c.r.chance(1, 2) ? Z(1 + c.r.below(3)) : N - Z(1 + c.r.below(3));
        if (((r + s) % N).zero()) r = N - Z(4);
        R = mulg((s + (r + s) * d) % N);
        if (R.inf) { c.nontrivial = false; return; }
        e = (r + N - R.x % N) % N;
        break;
    default: // ordinary one, then e off by one
        s = rndscalar(c.r), r = rndscalar(c.r);
        if (((r + s) % N).zero()) { c.nontrivial = false; return; }
        R = mulg((s + (r + s) * d) % N);
        if (R.inf) { c.nontrivial = false; return; }
        e = (r + N - R.x % N) % N;
        if (c.r.chance(1, 2)) e = (e + Z(1)) % N;
    }
    Bytes id = c.r.bytes(c.r.below(20)), m = c.r.bytes(1 + c.r.below(40));
    Bytes z  = HookHash<32>::eval(cat({{(u8)(id.size() * 8 >> 8), (u8)(id.size() * 8)}, id, a().to(32), b().to(32), G().xy(), P.xy()}));
    Bytes zm = cat({z, m}), dig = e.to(32);
    if (c.r.chance(1, 2) && e + N < pow2(256)) dig = (e + N).to(32), c.tag("digest above n");
    HookGuard hg([=](const Bytes& in, u8* out) { if (in != zm) return false; std::memcpy(out, dig.data(), 32); return true; });
    Bytes sig = cat({(r + add_r).to(32), (s + add_s).to(32)});
    c.in(sig), c.in(P.xy()), c.in((u64)kind);
    c.sample(fmt("constructed signature of kind %d: ", kind) + hex(sig));
    vchk<HookHash<32>>(c, fmt("constructed-%d", kind).c_str(), P, id, m, sig, fmt("constructed signature of kind %d", kind));
    (void)valid;
});
VF_CASE("C17", "hostile", 800, 0.15, 12, [](Ctx& c) {
    Pt     P = mulg(rnd_d(c.r));
    size_t l = c.idx < 6 ? 8190 + c.idx : c.idx % 8 == 0 ? 8192 + c.r.below(100000) : c.r.below(40);
    Bytes  id = c.r.bytes(l), m = c.r.ebytes(c.r.below(100)), sig = c.r.ebytes(64);
    if (c.r.chance(1, 2)) { Bytes t = cand(c.r).to(32); std::memcpy(sig.data(), t.data(), 32); }
    if (c.r.chance(1, 2)) { Bytes t = cand(c.r).to(32); std::memcpy(sig.data() + 32, t.data(), 32); }
    c.in(sig), c.in(id), c.in(m);
    if (l >= 8192) c.tag("identity too long");
    c.sample(fmt("identity of %zu bytes, signature ", l) + hex(sig));
    vchk<SM3>(c, l >= 8192 ? "long-identity" : "hostile", P, id, m, sig, fmt("hostile signature, identity of %zu bytes", l));
});
VF_REQ("C17", "valid signatures", "invalid signatures", "unreduced r or s", "sum of equal points", "sum is infinity", "x1 in [n,p)", "r + s = n", "r = 0 with matching equation", "s = 0 with matching equation", "identity too long", "digest above n");

// ---------------------------------------------------------------- encryption
static const sm2::SM2EcPC PCS[3] = {sm2::SM2EcPC::UNCOMPRESSED, sm2::SM2EcPC::COMPRESSED, sm2::SM2EcPC::MIX};
template <class H>
static bool ldecrypt(Ctx& c, const Prv<H>& k, const Bytes& ct, Bytes& m, const char* key)
{
    constexpr size_t D = H::DIGEST_SIZE;
    Buf    cb(ct, c.r.below(5));
    size_t pl = 0;
    bool   ok = true;
    // the announced length, computed from the prefix only
    bool  exp_len = !ct.empty() && ((ct[0] == 2 || ct[0] == 3) ? ct.size() >= 33 + D : (ct[0] == 4 || ct[0] == 6 || ct[0] == 7) ? ct.size() >= 65 + D : false);
    size_t want   = exp_len ? ct.size() - D - (ct[0] < 4 ? 33 : 65) : 0;
    try { pl = Prv<H>::plaintext_len(cb, ct.size()); if (!exp_len || pl != want) c.fail("plaintext-length", "%s: announced plaintext length %zu for %zu bytes starting %s", key, pl, ct.size(), hex(ct).substr(0, 2).c_str()); }
    catch (std::exception&) { if (exp_len && want) { Pt t; if (dec(t, ct.data(), ct.size())) c.fail("plaintext-length", "%s: no plaintext length for %zu bytes starting %s", key, ct.size(), hex(ct).substr(0, 2).c_str()); } pl = want; }
    Buf    pb(pl, c.r.below(5));
    size_t got = (size_t)-1;
    try { k.decrypt(pb, &got, cb, ct.size()); } catch (std::exception&) { ok = false; }
    if (!pb.ok() || cb.bytes() != ct) c.fail("decrypt-overrun", "decryption wrote outside the plaintext");
    if (ok)
    {
        if (got != pl) c.fail("plaintext-length", "%s: decryption reported %zu bytes, announced %zu", key, got, pl);
        m = pb.bytes();
    }
    c.out((u64)ok);
    return ok;
}
template <class H>
static void enc_case(Ctx& c, const Z& d, const Bytes& m, int form, const std::vector<Bytes>& draws, size_t expect)
{
    constexpr size_t D = H::DIGEST_SIZE;
    Pt     P = mulg(d);
    Bytes  e, back;
    size_t used = 0;
    bool   ok   = false;
    while (used < draws.size() && !ok) ok = enc1(Ref<H>::f, P, m, draw_k(draws[used++]), form, e);
    if (!ok) { c.nontrivial = false; return; }
    if (expect && used != expect) { fprintf(stderr, "harness: encryption reference used %zu draws, expected %zu\n", used, expect); exit(3); }
    Prv<H> k(d.to(32).data());
    Pub<H> pk(P.x.to(32).data(), P.y.to(32).data());
    Buf    mb(m, c.r.below(5));
    size_t al = Pub<H>::ciphertext_len(mb, m.size(), PCS[form]), al2 = Prv<H>::ciphertext_len(mb, m.size(), PCS[form]);
    size_t wl = (form == 1 ? 33 : 65) + D + m.size();
    if (al != wl || al2 != wl) c.fail("ciphertext-length", "announced ciphertext length %zu/%zu for %zu bytes, form %d", al, al2, m.size(), form);
    Buf       ob(wl, c.r.below(5));
    size_t    cl = 0;
    ScriptRng g;
    g.script = draws;
    bool viaprv = c.r.chance(1, 3);
    try
    {
        if (viaprv) k.encrypt(ob, &cl, mb, m.size(), g, PCS[form]);
        else pk.encrypt(ob, &cl, mb, m.size(), g, PCS[form]);
    }
    catch (RngFailure&)
    {
        c.fail("encrypt-draws", "encryption asked for more than %zu draws although draw %zu is admissible", draws.size(), used);
        return;
    }
    c.out(ob.bytes());
    if (cl != wl) c.fail("ciphertext-length", "encryption reported %zu bytes instead of %zu", cl, wl);
    c.eq("encrypt", ob.bytes(), e, fmt("ciphertext of %zu bytes in form %d, d = %s, k = %s", m.size(), form, d.str().c_str(), draw_k(draws[used - 1]).str().c_str()));
    if (g.pos != used || g.bytes != 32 * used) c.fail("encrypt-draws", "encryption took %zu draws, the first admissible value is draw %zu", g.pos, used);
    if (!ob.ok() || mb.bytes() != m) c.fail("encrypt-overrun", "encryption wrote outside the ciphertext");
    if (used > 1) c.tag("encryptions after a retry");
    if (!ldecrypt(c, k, e, back, "reference ciphertext")) c.fail("decrypt", "reference ciphertext of %zu bytes in form %d refused, d = %s", m.size(), form, d.str().c_str());
    else c.eq("decrypt", back, m, fmt("plaintext of %zu bytes in form %d", m.size(), form));
    // the same ciphertext with its point in the other formats
    Bytes rest(e.begin() + (form == 1 ? 33 : 65), e.end());
    Pt    C1;
    dec(C1, e.data(), e.size());
    int f2 = (form + 1 + (int)c.r.below(2)) % 3;
    Bytes e2 = cat({enc(C1, f2), rest});
    if (!ldecrypt(c, k, e2, back, "reference ciphertext")) c.fail("decrypt", "reference ciphertext of %zu bytes in form %d refused, d = %s", m.size(), f2, d.str().c_str());
    else c.eq("decrypt", back, m, fmt("plaintext of %zu bytes in form %d", m.size(), f2));
}
VF_CASE("C18", "encrypt", 2600, 0.12, 10, [](Ctx& c) {
    Z      d = rnd_d(c.r);
    size_t l = c.idx < 270 ? 1 + c.idx : 1 + c.r.len(c.r.chance(1, 30) ? 20000 : 600, 32);
    Bytes  m = c.r.ebytes(l);
    int    f = (int)(c.idx % 3);
    std::vector<Bytes> dr = {cand(c.r).to(32), c.r.bytes(32), c.r.bytes(32)};
    if (c.r.chance(1, 6))
    {
        // the shared point [k]P is one with unusual coordinates
        Z k = mulmod(Z(special::pick(special::kSm2, c.r)), invmod(d, n()), n());
        if (c.r.below(2)) k = n() - k;
        dr[0] = (k - Z(1)).to(32);
        c.tag("shared point with unusual coordinates");
    }
    c.in(d.to(32)), c.in(m), c.in(dr[0]), c.in((u64)f);
    c.tag(fmt("point form %d", f));
    if (l > 8192) c.tag("more than 256 mask blocks");
    c.sample(fmt("%zu bytes in form %d under d = ", l, f) + d.str());
    enc_case<SM3>(c, d, m, f, dr, 0);
});
VF_CASE("C18", "endurance", 4, 0.5, 6, [](Ctx& c) { // one key, many messages
    Z        d = rnd_d(c.r);
    Pt       P = mulg(d);
    Prv<SM3> k(d.to(32).data());
    Pub<SM3> pk(P.x.to(32).data(), P.y.to(32).data());
    c.in(d.to(32));
    for (size_t i = 0; i < 300 && !c.failed; i++)
    {
        Bytes     m = c.r.bytes(1 + c.r.below(60)), e, back;
        int       f = (int)c.r.below(3);
        ScriptRng g;
        g.script = {c.r.bytes(32), c.r.bytes(32)};
        if (!enc1(Ref<SM3>::f, P, m, draw_k(g.script[0]), f, e)) continue;
        Bytes  o(e.size());
        size_t l = 0;
        pk.encrypt(o.data(), &l, m.data(), m.size(), g, PCS[f]);
        c.eq("encrypt", o, e, fmt("encryption %zu with one key", i));
        if (!ldecrypt(c, k, e, back, "reference ciphertext")) c.fail("decrypt", "decryption %zu with one key refused", i);
        else c.eq("decrypt", back, m, fmt("decryption %zu with one key", i));
    }
    c.tag("many messages with one key");
}, 120);
VF_CASE("C18", "scales", 48, 0.3, 10, [](Ctx& c) {
    Bytes m = c.r.bytes(c.r.scale(c.idx, 10, 20));
    c.in(m);
    enc_case<SM3>(c, rnd_d(c.r), m, (int)c.r.below(3), {c.r.bytes(32), c.r.bytes(32)}, 0);
    c.tag("lengths around powers of two");
}, 120);
VF_CASE("C18", "long", 3, 0.5, 4, [](Ctx& c) {
    // the mask block counter passes 2^8 and 2^16
    size_t l = c.idx == 0 ? 65536 * 32 + 40 : c.idx == 1 ? 65535 * 32 + 1 : 256 * 32 - 32 + c.r.below(64);
    Bytes  m = c.r.bytes(l);
    c.in(m);
    c.tag("more than 65535 mask blocks", l > 65535 * 32);
    enc_case<SM3>(c, rnd_d(c.r), m, (int)c.r.below(3), {c.r.bytes(32)}, 0);
}, 300);
template <size_t D>
static void zero_mask(Ctx& c)
{
    Z      d = rnd_d(c.r);
    Pt     P = mulg(d);
    size_t l = 1 + c.r.len(4 * D, D);
    Bytes  m = c.r.ebytes(l);
    size_t bad = c.r.below(4), nb = (l + D - 1) / D;
    std::vector<Bytes> dr;
    std::vector<Bytes> zs;
    for (size_t i = 0; i <= bad; i++)
    {
        dr.push_back(c.r.bytes(32));
        zs.push_back(mul(draw_k(dr[i]), P).xy());
    }
    // the admissible draw may still have a nearly all-zero mask
    size_t keep = c.r.below(l);
    bool   near = c.r.chance(2, 3);
    HookGuard hg([=](const Bytes& in, u8* out) {
        if (in.size() != 68) return false;
        Bytes z(in.begin(), in.begin() + 64);
        unsigned ct = in[64] << 24 | in[65] << 16 | in[66] << 8 | in[67];
        for (size_t i = 0; i <= bad; i++)
            if (z == zs[i])
            {
                if (i == bad && !near) return false;
                std::memset(out, 0, D);
                // bytes beyond the message are not part of the mask
                if (i < bad && ct == nb && l % D) std::memset(out + l % D, 0x5a, D - l % D);
                if (i == bad && keep / D + 1 == ct) out[keep % D] = 0x01;
                return true;
            }
        return false;
    });
    c.in(d.to(32)), c.in(m), c.in(dr[0]), c.in(bad), c.in(keep);
    if (near) c.tag("mask zero but for one byte");
    c.tag("all-zero masks", bad);
    c.sample(fmt("%zu draws with an all-zero mask of %zu bytes, then %s", bad, l, near ? "one with a single nonzero byte" : "an ordinary one"));
    enc_case<HookHash<D>>(c, d, m, (int)c.r.below(3), dr, bad + 1);
}
VF_CASE("C18", "zero-mask", 1200, 0.12, 10, [](Ctx& c) { zero_mask<32>(c); });
VF_CASE("C18", "zero-mask-other-hashes", 300, 0.2, 10, [](Ctx& c) { if (c.idx & 1) zero_mask<20>(c); else zero_mask<64>(c); });
VF_REQ("C18", "shared point with unusual coordinates", "point form 0", "point form 1", "point form 2", "more than 256 mask blocks", "more than 65535 mask blocks", "encryptions after a retry", "mask zero but for one byte");

// ---------------------------------------------------------------- C19
template <class H>
static void rej(Ctx& c, const Prv<H>& k, const Z& d, const Bytes& ct, const char* what)
{
    Bytes m, g;
    bool  e = decrypt(Ref<H>::f, H::DIGEST_SIZE, d, ct, m), l = ldecrypt(c, k, ct, g, what);
    if (e && m.empty()) return; // no plaintext at all: not claimed
    c.tag(e ? "valid ciphertexts" : "invalid ciphertexts");
    std::string wk = std::string(what).substr(0, std::string(what).find(":"));
    if (l && !e) c.fail((std::string("accepts-") + wk).c_str(), "%s: decrypted without an error: %s", what, hex(ct).c_str());
    else if (e && !l) c.fail((std::string("refuses-") + wk).c_str(), "%s: refused: %s", what, hex(ct).c_str());
    else if (e) c.eq("plaintext", g, m, what);
}
VF_CASE("C19", "altered", 500, 0.12, 12, [](Ctx& c) {
    Z      d = rnd_d(c.r);
    Pt     P = mulg(d);
    Bytes  m = c.r.ebytes(1 + c.r.below(c.r.chance(1, 4) ? 200 : 40)), ct;
    int    f = (int)(c.idx % 3);
    while (!enc1(h_sm3, P, m, rndscalar(c.r), f, ct)) {}
    Prv<SM3> k(d.to(32).data());
    size_t   h = f == 1 ? 33 : 65;
    c.in(ct);
    c.sample("alterations of " + hex(ct));
    rej(c, k, d, ct, "valid");
    for (int i = 0; i < 8; i++)
    {
        Bytes  b = ct;
        size_t pos = i < 3 ? c.r.below(h) : i < 5 ? h + c.r.below(32) : i < 7 ? h + 32 + c.r.below(m.size()) : 0;
        b[pos] ^= (u8)(1 << c.r.below(8));
        rej(c, k, d, b, i < 3 ? "bit-flip-C1" : i < 5 ? "bit-flip-C3" : i < 7 ? "bit-flip-C2" : "bit-flip-format");
    }
    for (int i = 0; i < 8; i++)
    {
        Bytes       b = ct;
        std::string w;
        if (tamper(c.r, b, i < 5 ? h : i == 5 ? 1 : h + 32, i < 5 ? h + 32 : i == 5 ? h : ct.size(), w)) rej(c, k, d, b, ("several bytes: " + w).c_str());
    }
    for (int i = 0; i < 4; i++)
    { // truncation at every kind of place
        size_t l = i == 0 ? c.r.below(ct.size()) : i == 1 ? h + c.r.below(33) : i == 2 ? ct.size() - 1 - c.r.below(m.size()) : c.r.below(h + 1);
        rej(c, k, d, Bytes(ct.begin(), ct.begin() + l), "truncated");
    }
    Bytes x = ct;
    app(x, c.r.ebytes(1 + c.r.below(40)));
    rej(c, k, d, x, "extended");
    for (int t : {0, 1, 2, 3, 4, 5, 6, 7, 8, 0x30, 0xff})
    {
        Bytes b = ct;
        b[0] = (u8)t;
        rej(c, k, d, b, "format");
    }
    // C3 and C2 exchanged (the old layout), point negated, other key
    Bytes o = cat({Bytes(ct.begin(), ct.begin() + h), Bytes(ct.begin() + h + 32, ct.end()), Bytes(ct.begin() + h, ct.begin() + h + 32)});
    if (o != ct) rej(c, k, d, o, "old-layout");
    Pt C1;
    dec(C1, ct.data(), ct.size());
    rej(c, k, d, cat({enc(neg(C1), f), Bytes(ct.begin() + h, ct.end())}), "negated-point");
    Z d2 = (d % (n() - Z(3))) + Z(1);
    if (d2 != d) { Prv<SM3> k2(d2.to(32).data()); rej(c, k2, d2, ct, "other-key"); }
    // wrong parity of the hybrid form, unreduced coordinates
    Bytes hy = cat({enc(C1, 2), Bytes(ct.begin() + h, ct.end())});
    rej(c, k, d, hy, "hybrid");
    hy[0] ^= 1;
    rej(c, k, d, hy, "hybrid-parity");
});
VF_CASE("C19", "special-points", 400, 0.15, 12, [](Ctx& c) {
    // authentic under the key, with C1 a chosen point, possibly written in a forbidden way
    Z        d = rnd_d(c.r);
    Prv<SM3> k(d.to(32).data());
    Pt       C1 = rndpt(c.r), S = mul(d, C1);
    Bytes    m = c.r.ebytes(1 + c.r.below(60)), t = kdf(h_sm3, S.xy(), m.size());
    for (size_t i = 0; i < m.size(); i++) t[i] ^= m[i];
    Bytes rest = cat({h_sm3(cat({S.x.to(32), m, S.y.to(32)})), t});
    c.in(rest), c.in(C1.xy());
    c.sample("authentic ciphertext for C1 = " + ps(C1));
    for (int f = 0; f < 3; f++) rej(c, k, d, cat({enc(C1, f), rest}), "valid");
    if (C1.x < pow2(256) - p())
    {
        c.tag("unreduced x");
        for (int f = 0; f < 3; f++)
        {
            Bytes b = cat({enc(C1, f), rest}), x = (C1.x + p()).to(32);
            std::memcpy(&b[1], x.data(), 32);
            rej(c, k, d, b, "unreduced-x");
        }
    }
    if (C1.y < pow2(256) - p())
    {
        c.tag("unreduced y");
        for (int f = 0; f < 3; f += 2)
        {
            Bytes b = cat({enc(C1, f), rest}), y = (C1.y + p()).to(32);
            std::memcpy(&b[33], y.data(), 32);
            rej(c, k, d, b, "unreduced-y");
        }
    }
    // a point of another curve (y^2 = x^3 + ax + b'): the invalid-curve attack
    Pt bad = C1;
    bad.y = (C1.y + Z(1 + c.r.below(9))) % p();
    if (!on(bad.x, bad.y)) rej(c, k, d, cat({enc(bad, c.r.below(2) ? 0 : 2), rest}), "off-curve");
});
VF_CASE("C19", "zero-mask", 250, 0.2, 12, [](Ctx& c) {
    // an all-zero mask never comes out of encryption, so decryption must refuse it
    Z      d = rnd_d(c.r);
    Pt     C1 = rndpt(c.r), S = mul(d, C1);
    size_t l = 1 + c.r.len(100, 32);
    Bytes  z = S.xy(), m = c.r.ebytes(l);
    bool   near = c.r.chance(1, 3);
    size_t keep = c.r.below(l);
    HookGuard hg([=](const Bytes& in, u8* out) {
        if (in.size() != 68 || Bytes(in.begin(), in.begin() + 64) != z) return false;
        std::memset(out, 0, 32);
        unsigned ct = in[64] << 24 | in[65] << 16 | in[66] << 8 | in[67];
        if (near && keep / 32 + 1 == ct) out[keep % 32] = 0x80;
        return true;
    });
    Bytes t = kdf(Ref<HookHash<32>>::f, z, l);
    for (size_t i = 0; i < l; i++) t[i] ^= m[i];
    Bytes ct = cat({enc(C1, (int)c.r.below(3)), Ref<HookHash<32>>::f(cat({S.x.to(32), m, S.y.to(32)})), t});
    Prv<HookHash<32>> k(d.to(32).data());
    c.in(ct);
    c.tag(near ? "mask zero but for one byte" : "all-zero mask");
    c.sample("authentic ciphertext whose mask is all zero");
    rej(c, k, d, ct, near ? "valid" : "zero-mask");
});
VF_CASE("C19", "garbage", 2500, 0.2, 12, [](Ctx& c) {
    static Z        d = Z::hex("3945208F7B2144B13F36E38AC6D39F95889393692860B51A42FB81EF4DF7C5B8");
    static Prv<SM3> k(d.to(32).data());
    Bytes b = c.r.ebytes(c.idx < 140 ? c.idx : c.r.below(200));
    if (!b.empty() && c.r.chance(5, 6)) b[0] = (u8)(2 + c.r.below(6));
    c.in(b);
    c.sample("arbitrary bytes " + hex(b).substr(0, 80));
    rej(c, k, d, b, "garbage");
});
VF_REQ("C19", "valid ciphertexts", "invalid ciphertexts", "unreduced x", "unreduced y", "all-zero mask", "mask zero but for one byte");
VF_MAIN
