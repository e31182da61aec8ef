// Reference for SM2 (GB/T 32918) over OpenSSL's generic elliptic curves.
#pragma once
#include "bn.h"
#include "script_rng.h"
#include "special.h"
#include <openssl/ec.h>
#include <openssl/obj_mac.h>
namespace sm2r {
using vf::Bytes;
using vf::u8;
inline const EC_GROUP* grp()
{
    static const EC_GROUP* g = [] {
        EC_GROUP* x = EC_GROUP_new_by_curve_name(NID_sm2);
        if (!x) ossl::die("SM2 curve");
        return x;
    }();
    return g;
}
inline const Z& p() { static Z z = Z::hex("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF"); return z; }
inline const Z& n() { static Z z = Z::hex("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123"); return z; }
inline const Z& a() { static Z z = p() - Z(3); return z; }
inline const Z& b() { static Z z = Z::hex("28E9FA9E9D9F5E344D5A9E4BCF6509A7F39789F515AB8F92DDBCBD414D940E93"); return z; }
struct Pt
{
    Z    x, y;
    bool inf = false;
    bool operator==(const Pt& o) const { return inf == o.inf && (inf || (x == o.x && y == o.y)); }
    Bytes xy() const
    {
        Bytes r = x.to(32), s = y.to(32);
        r.insert(r.end(), s.begin(), s.end());
        return r;
    }
};
struct EP
{
    EC_POINT* q = EC_POINT_new(grp());
    EP() {}
    EP(const Pt& t)
    {
        if (t.inf) EC_POINT_set_to_infinity(grp(), q);
        else if (!EC_POINT_set_affine_coordinates(grp(), q, t.x.b, t.y.b, Z::ctx())) ossl::die("point not on the SM2 curve");
    }
    EP(const EP&) = delete;
    ~EP() { EC_POINT_free(q); }
    Pt pt() const
    {
        Pt t;
        if (EC_POINT_is_at_infinity(grp(), q)) { t.inf = true; return t; }
        if (!EC_POINT_get_affine_coordinates(grp(), q, t.x.b, t.y.b, Z::ctx())) ossl::die("affine");
        return t;
    }
};
inline const Pt& G()
{
    static Pt g = [] {
        Pt t;
        t.x = Z::hex("32C4AE2C1F1981195F9904466A39C9948FE30BBFF2660BE1715A4589334C74C7");
        t.y = Z::hex("BC3736A2F4F6779C59BDCEE36B692153D0A9877CC62A474002DF32E52139F0A0");
        return t;
    }();
    return g;
}
inline Pt mul(const Z& k, const Pt& P)
{
    EP r, q(P);
    EC_POINT_mul(grp(), r.q, nullptr, q.q, k.b, Z::ctx());
    return r.pt();
}
inline Pt mulg(const Z& k)
{
    EP r;
    EC_POINT_mul(grp(), r.q, k.b, nullptr, nullptr, Z::ctx());
    return r.pt();
}
inline Pt add(const Pt& A, const Pt& B)
{
    EP r, x(A), y(B);
    EC_POINT_add(grp(), r.q, x.q, y.q, Z::ctx());
    return r.pt();
}
inline Pt neg(const Pt& A)
{
    Pt t = A;
    if (!t.inf) t.y = (p() - t.y) % p();
    return t;
}
inline bool on(const Z& x, const Z& y)
{
    return mulmod(y, y, p()) == (mulmod(mulmod(x, x, p()), x, p()) + mulmod(a(), x, p()) + b()) % p();
}
// point with this x and parity of y; inf if there is none
inline Pt lift(const Z& x, int par)
{
    Pt t;
    Z  r = (mulmod(mulmod(x, x, p()), x, p()) + mulmod(a(), x, p()) + b()) % p();
    // p = 3 mod 4
    Z y = powmod(r, (p() + Z(1)) >> 2, p());
    if (mulmod(y, y, p()) != r) { t.inf = true; return t; }
    if (y.odd() != (par != 0)) y = (p() - y) % p();
    t.x = x, t.y = y;
    return t;
}
// point encodings: 0 uncompressed, 1 compressed, 2 hybrid (library's order of SM2EcPC)
inline Bytes enc(const Pt& P, int form)
{
    Bytes r, x = P.x.to(32), y = P.y.to(32);
    r.push_back(form == 0 ? 4 : form == 1 ? 2 + P.y.odd() : 6 + P.y.odd());
    r.insert(r.end(), x.begin(), x.end());
    if (form != 1) r.insert(r.end(), y.begin(), y.end());
    return r;
}
// strict decoding: number of bytes consumed or 0
inline size_t dec(Pt& P, const u8* in, size_t l)
{
    if (!l) return 0;
    u8 t = in[0];
    if (t == 2 || t == 3)
    {
        if (l < 33) return 0;
        Z x = Z::bytes(in + 1, 32);
        if (x >= p()) return 0;
        P = lift(x, t & 1);
        return P.inf ? 0 : 33;
    }
    if (t == 4 || t == 6 || t == 7)
    {
        if (l < 65) return 0;
        P.inf = false;
        P.x = Z::bytes(in + 1, 32), P.y = Z::bytes(in + 33, 32);
        if (P.x >= p() || P.y >= p() || !on(P.x, P.y)) return 0;
        if (t != 4 && (t & 1) != (int)P.y.odd()) return 0;
        return 65;
    }
    return 0;
}
typedef std::function<Bytes(const Bytes&)> HashFn;
inline void  app(Bytes& o, const Bytes& b) { o.insert(o.end(), b.begin(), b.end()); }
inline Bytes cat(std::initializer_list<Bytes> l)
{
    Bytes o;
    for (auto& b : l) app(o, b);
    return o;
}
inline Bytes za(const HashFn& H, const Bytes& id, const Pt& P)
{
    size_t bits = id.size() * 8;
    return H(cat({{(u8)(bits >> 8), (u8)bits}, id, a().to(32), b().to(32), G().xy(), P.xy()}));
}
inline Z msg_e(const HashFn& H, const Bytes& id, const Pt& P, const Bytes& msg) { return Z::bytes(H(cat({za(H, id, P), msg}))) % n(); }
// the integer a random draw stands for: (draw mod (n-1)) + 1
inline Z draw_k(const Bytes& d) { return Z::bytes(d) % (n() - Z(1)) + Z(1); }
// one attempt; false if this k is not admissible
inline bool sign1(const Z& d, const Z& e, const Z& k, Z& r, Z& s)
{
    Pt R = mulg(k);
    r    = (e + R.x) % n();
    if (r.zero() || r + k == n()) return false;
    s = mulmod(invmod(Z(1) + d, n()), k - r * d, n());
    return !s.zero();
}
inline bool verify(const Pt& P, const Z& e, const Z& r, const Z& s)
{
    if (r.zero() || r >= n() || s.zero() || s >= n()) return false;
    Z t = (r + s) % n();
    if (t.zero()) return false;
    Pt R = add(mulg(s), mul(t, P));
    if (R.inf) return false;
    return (e + R.x) % n() == r;
}
inline Bytes kdf(const HashFn& H, const Bytes& z, size_t len)
{
    Bytes    o;
    unsigned ct = 1;
    while (o.size() < len)
    {
        app(o, H(cat({z, {(u8)(ct >> 24), (u8)(ct >> 16), (u8)(ct >> 8), (u8)ct}})));
        ct++;
    }
    o.resize(len);
    return o;
}
inline bool all0(const Bytes& b)
{
    for (auto x : b)
        if (x) return false;
    return true;
}
// one attempt of encryption; false if the mask is all zero
inline bool enc1(const HashFn& H, const Pt& P, const Bytes& m, const Z& k, int form, Bytes& c)
{
    Pt    S = mul(k, P);
    Bytes t = kdf(H, S.xy(), m.size());
    if (all0(t)) return false;
    for (size_t i = 0; i < m.size(); i++) t[i] ^= m[i];
    c = cat({enc(mulg(k), form), H(cat({S.x.to(32), m, S.y.to(32)})), t});
    return true;
}
// strict decryption; 0 length result with ok=false if invalid
inline bool decrypt(const HashFn& H, size_t hl, const Z& d, const Bytes& c, Bytes& m)
{
    Pt     C1;
    size_t l = dec(C1, c.data(), c.size());
    if (!l || c.size() < l + hl) return false;
    Pt S = mul(d, C1);
    m.assign(c.begin() + l + hl, c.end());
    Bytes t = kdf(H, S.xy(), m.size());
    if (!m.empty() && all0(t)) return false;
    for (size_t i = 0; i < m.size(); i++) m[i] ^= t[i];
    return H(cat({S.x.to(32), m, S.y.to(32)})) == Bytes(c.begin() + l, c.begin() + l + hl);
}
// edge-biased scalar in [1, n-1]
inline Z rndscalar(vf::Rnd& r)
{
    switch (r.below(10))
    {
    case 0: return Z(1 + r.below(40));
    case 1: return n() - Z(1 + r.below(40));
    case 2: { Z z = pow2((int)r.below(256)) + Z(r.below(3)); return z % (n() - Z(1)) + Z(1); }
    case 3: { Z z = pow2(1 + (int)r.below(255)) - Z(1 + r.below(3)); return z.zero() ? Z(1) : z % (n() - Z(1)) + Z(1); }
    case 4: return (n() >> 1) + Z(r.below(5)) - Z(2);
    case 5: // where three times the scalar passes 2^256 and 2^257
        return (r.below(2) ? pow2(256) / Z(3) : pow2(257) / Z(3)) + Z(r.below(7)) - Z(3);
    case 6: return Z(special::pick(special::kSm2, r));
    case 7: return n() - Z(special::pick(special::kSm2, r));
    default:
    {
        Z z = Z::bytes(r.ebytes(32)) % (n() - Z(1)) + Z(1);
        return r.below(4) ? z : n() - z;
    }
    }
}
inline Pt rndpt(vf::Rnd& r)
{
    static const struct { int y; const char* x; } sy[] = {{1, "9C17043EFFE1A805A74A9A5E70B9D659705D3242094A566DC016F49311178D1F"}, {2, "3B404F94E46027D11401987CD5ACB2953E4BFF91A7D856B40986700015B4F8A6"}, {3, "1800FFCB38194CE0905766DFD6B9CE196095203D481BA8E4E614749D615CD506"}, {11, "26893D1EEA12E82E488605A9F54DDFD2A0EBDCD3B423ACF50515EEA87E2ED6F1"}, {14, "802FAEB4B0B19BD69A5C0438E4337A241B3425FE478074EEB1F85E60EDEB79F4"}, {17, "CC56A8267A46F76C76B1CDA09A9391253B703F7EE0868A17C1306E71281D8346"}};
    switch (r.below(7))
    {
    case 0: // small x
        for (;;)
        {
            Pt t = lift(Z(r.below(100)), (int)r.below(2));
            if (!t.inf) return t;
        }
    case 3: // unusual words, plain or in Montgomery form
        for (;;)
        {
            Pt t = lift(rndmod(r, p()), (int)r.below(2));
            if (!t.inf) return t;
        }
    case 1: // x just below p, which includes x in [n, p)
        for (;;)
        {
            Pt t = lift(p() - Z(1 + r.below(100)), (int)r.below(2));
            if (!t.inf) return t;
        }
    case 2: // small y or y close to p
    {
        auto& e = sy[r.below(6)];
        Pt    t;
        t.x = Z::hex(e.x), t.y = Z((vf::u64)e.y);
        return r.below(2) ? neg(t) : t;
    }
    default: return mulg(rndscalar(r));
    }
}
} // namespace sm2r
