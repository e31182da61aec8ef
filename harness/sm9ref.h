// Reference for SM9 (GB/T 38635): textbook tower, curves, R-ate pairing.
// F_p^12 is F_p[w]/(w^12+2), with w^3 = v, w^6 = u, u^2 = -2.
#pragma once
#include "bn.h"
#include "special.h"
#include "script_rng.h"
#include <openssl/ec.h>
#include <openssl/err.h>
namespace sm9r {
using vf::Bytes;
using vf::Rnd;
using vf::u128;
using vf::u64;
using vf::u8;
inline const Z& p() { static Z z = Z::hex("B640000002A3A6F1D603AB4FF58EC74521F2934B1A7AEEDBE56F9B27E351457D"); return z; }
inline const Z& n() { static Z z = Z::hex("B640000002A3A6F1D603AB4FF58EC74449F2934B18EA8BEEE56EE19CD69ECF25"); return z; }
inline Bytes cat(std::initializer_list<Bytes> l)
{
    Bytes r;
    for (auto& b : l) r.insert(r.end(), b.begin(), b.end());
    return r;
}
inline Z addp(const Z& a, const Z& b) { return (a + b) % p(); }
inline Z subp(const Z& a, const Z& b) { return (a - b) % p(); }
inline Z mulp(const Z& a, const Z& b) { return mulmod(a, b, p()); }
inline Z invp(const Z& a) { return invmod(a, p()); }
// ---- F_p^12 element, coefficients of w^0..w^11 as little-endian limbs
struct F
{
    u64 c[12][4];
    F() { std::memset(c, 0, sizeof c); }
    explicit F(u64 v) : F() { c[0][0] = v; }
    static void put(u64* l, const Z& z)
    {
        if (BN_bn2lebinpad(z.b, (unsigned char*)l, 32) != 32) ossl::die("field element");
    }
    static Z get(const u64* l)
    {
        Z z;
        BN_lebin2bn((const unsigned char*)l, 32, z.b);
        return z;
    }
    Z    at(int i) const { return get(c[i]); }
    void set(int i, const Z& z) { put(c[i], z); }
    bool operator==(const F& o) const { return std::memcmp(c, o.c, sizeof c) == 0; }
    bool operator!=(const F& o) const { return !(*this == o); }
    bool zero() const { return *this == F(); }
    bool one() const { return *this == F(1); }
};
inline F operator+(const F& a, const F& b)
{
    F r;
    for (int i = 0; i < 12; i++) r.set(i, addp(a.at(i), b.at(i)));
    return r;
}
inline F operator-(const F& a, const F& b)
{
    F r;
    for (int i = 0; i < 12; i++) r.set(i, subp(a.at(i), b.at(i)));
    return r;
}
#if defined(__clang__)
#define VF_NOSAN __attribute__((no_sanitize("address", "undefined")))
#else
#define VF_NOSAN
#endif
VF_NOSAN inline void mac(u64* acc, const u64* a, const u64* b) // acc (10 limbs) += a*b
{
    for (int i = 0; i < 4; i++)
    {
        u64 k = 0;
        for (int j = 0; j < 4; j++)
        {
            u128 t = (u128)a[i] * b[j] + acc[i + j] + k;
            acc[i + j] = (u64)t;
            k = (u64)(t >> 64);
        }
        for (int j = i + 4; k && j < 10; j++)
        {
            acc[j] += k;
            k = acc[j] < k;
        }
    }
}
inline F operator*(const F& a, const F& b)
{
    u64  acc[23][10] = {};
    bool za[12], zb[12];
    for (int i = 0; i < 12; i++)
    {
        za[i] = !(a.c[i][0] | a.c[i][1] | a.c[i][2] | a.c[i][3]);
        zb[i] = !(b.c[i][0] | b.c[i][1] | b.c[i][2] | b.c[i][3]);
    }
    for (int i = 0; i < 12; i++)
        for (int j = 0; j < 12; j++)
            if (!za[i] && !zb[j]) mac(acc[i + j], a.c[i], b.c[j]);
    F r;
    Z lo, hi;
    for (int k = 0; k < 12; k++)
    {
        BN_lebin2bn((const unsigned char*)acc[k], 80, lo.b);
        if (k < 11)
        {
            BN_lebin2bn((const unsigned char*)acc[k + 12], 80, hi.b);
            BN_lshift1(hi.b, hi.b);
            BN_sub(lo.b, lo.b, hi.b);
        }
        BN_nnmod(lo.b, lo.b, p().b, Z::ctx());
        r.set(k, lo);
    }
    return r;
}
inline F fpow(const F& a, const Z& e)
{
    F   r(1);
    int nb = e.bits();
    if (nb == 0) return r;
    F t[16];
    t[0] = F(1);
    for (int i = 1; i < 16; i++) t[i] = t[i - 1] * a;
    for (int i = (nb + 3) / 4 - 1; i >= 0; i--)
    {
        if (!r.one()) r = r * r, r = r * r, r = r * r, r = r * r;
        int d = e.bit(4 * i) | e.bit(4 * i + 1) << 1 | e.bit(4 * i + 2) << 2 | e.bit(4 * i + 3) << 3;
        if (d) r = r * t[d];
    }
    return r;
}
// x -> x^(p^k) acts on w by w^(p^k) = w * zeta^(...)
inline F frob(const F& a, int k)
{
    static std::map<int, Z> tab;
    auto it = tab.find(k);
    if (it == tab.end())
    {
        // (p^k - 1)/12 ; w^12 = -2
        Z pk(1);
        for (int i = 0; i < k; i++) pk = pk * p();
        it = tab.emplace(k, powmod(p() - Z(2), (pk - Z(1)) / Z(12), p())).first;
    }
    F r;
    Z f(1);
    for (int i = 0; i < 12; i++)
    {
        r.set(i, mulp(a.at(i), f));
        f = mulp(f, it->second);
    }
    return r;
}
// inverse through the norm to F_p: product of the other conjugates
inline F finv(const F& a)
{
    F m(1);
    for (int k = 1; k < 12; k++) m = m * frob(a, k);
    F nm = m * a;
    F s;
    s.set(0, invp(nm.at(0)));
    return m * s;
}
// index of coefficient (i,j,k): w^i v^j u^k
inline int wi(int i, int j, int k) { return i + 3 * j + 6 * k; }
// library encodings: highest coefficient first
inline Bytes enc12(const F& a)
{
    Bytes r;
    for (int i = 2; i >= 0; i--)
        for (int j = 1; j >= 0; j--)
            for (int k = 1; k >= 0; k--)
            {
                Bytes t = a.at(wi(i, j, k)).to(32);
                r.insert(r.end(), t.begin(), t.end());
            }
    return r;
}
inline F dec12(const Bytes& b)
{
    F   r;
    int o = 0;
    for (int i = 2; i >= 0; i--)
        for (int j = 1; j >= 0; j--)
            for (int k = 1; k >= 0; k--, o += 32) r.set(wi(i, j, k), Z::bytes(&b[o], 32));
    return r;
}
// ---- F_p^2
struct F2
{
    Z    a, b; // a + b u
    bool operator==(const F2& o) const { return a == o.a && b == o.b; }
    bool zero() const { return a.zero() && b.zero(); }
    Bytes to() const { return cat({b.to(32), a.to(32)}); }
};
inline F2 operator+(const F2& x, const F2& y) { return {addp(x.a, y.a), addp(x.b, y.b)}; }
inline F2 operator-(const F2& x, const F2& y) { return {subp(x.a, y.a), subp(x.b, y.b)}; }
inline F2 operator*(const F2& x, const F2& y) { return {(x.a * y.a - ((x.b * y.b) << 1)) % p(), (x.a * y.b + x.b * y.a) % p()}; }
inline F2 inv(const F2& x)
{
    Z d = invp((x.a * x.a + ((x.b * x.b) << 1)) % p());
    return {mulp(x.a, d), mulp((p() - x.b) % p(), d)};
}
inline F2 conj(const F2& x) { return {x.a, (p() - x.b) % p()}; }
// ---- group 1
struct P1
{
    Z    x, y;
    bool inf = false;
    bool operator==(const P1& o) const { return inf == o.inf && (inf || (x == o.x && y == o.y)); }
    Bytes xy() const { return cat({x.to(32), y.to(32)}); }
};
inline const EC_GROUP* grp()
{
    static EC_GROUP* g = nullptr;
    if (!g)
    {
        g = EC_GROUP_new_curve_GFp(p().b, Z(0).b, Z(5).b, Z::ctx());
        EC_POINT* q = EC_POINT_new(g);
        if (!EC_POINT_set_affine_coordinates(g, q, Z::hex("93DE051D62BF718FF5ED0704487D01D6E1E4086909DC3280E8C4E4817C66DDDD").b, Z::hex("21FE8DDA4F21E607631065125C395BBC1C1C00CBFA6024350C464CD70A3EA616").b, Z::ctx())) ossl::die("SM9 generator");
        if (!EC_GROUP_set_generator(g, q, n().b, Z(1).b)) ossl::die("SM9 group");
        EC_POINT_free(q);
    }
    return g;
}
struct EP
{
    EC_POINT* q = EC_POINT_new(grp());
    EP() {}
    EP(const P1& t)
    {
        if (t.inf) EC_POINT_set_to_infinity(grp(), q);
        else if (!EC_POINT_set_affine_coordinates(grp(), q, t.x.b, t.y.b, Z::ctx())) ossl::die("point not on the SM9 curve");
    }
    EP(const EP&) = delete;
    ~EP() { EC_POINT_free(q); }
    P1 pt() const
    {
        P1 t;
        if (EC_POINT_is_at_infinity(grp(), q)) { t.inf = true; return t; }
        if (!EC_POINT_get_affine_coordinates(grp(), q, t.x.b, t.y.b, Z::ctx())) ossl::die("affine");
        return t;
    }
};
inline P1 mul(const Z& k, const P1& P)
{
    EP a(P), r;
    EC_POINT_mul(grp(), r.q, nullptr, a.q, k.b, Z::ctx());
    return r.pt();
}
inline P1 mulg1(const Z& k)
{
    EP r;
    EC_POINT_mul(grp(), r.q, k.b, nullptr, nullptr, Z::ctx());
    return r.pt();
}
inline P1 add(const P1& a, const P1& b)
{
    EP x(a), y(b), r;
    EC_POINT_add(grp(), r.q, x.q, y.q, Z::ctx());
    return r.pt();
}
inline P1 neg(const P1& a)
{
    P1 r = a;
    if (!a.inf && !a.y.zero()) r.y = p() - a.y;
    return r;
}
inline bool on(const Z& x, const Z& y) { return mulp(y, y) == addp(mulp(mulp(x, x), x), Z(5)); }
inline P1 lift(const Z& x, int odd)
{
    P1 r;
    Z  t = addp(mulp(mulp(x, x), x), Z(5));
    Z  y;
    if (!BN_mod_sqrt(y.b, t.b, p().b, Z::ctx()) || mulp(y, y) != t)
    {
        ERR_clear_error();
        r.inf = true;
        return r;
    }
    r.x = x;
    r.y = (int)y.odd() == odd ? y : (p() - y) % p();
    return r;
}
inline Bytes enc(const P1& P, int form) // 0 uncompressed 1 compressed 2 hybrid
{
    if (form == 1) return cat({{(u8)(2 + P.y.odd())}, P.x.to(32)});
    return cat({{(u8)(form == 0 ? 4 : 6 + P.y.odd())}, P.xy()});
}
inline size_t dec(P1& P, const u8* in, size_t n_)
{
    if (!n_) return 0;
    if (in[0] == 2 || in[0] == 3)
    {
        if (n_ < 33) return 0;
        Z x = Z::bytes(in + 1, 32);
        if (x >= p()) return 0;
        P = lift(x, in[0] & 1);
        return P.inf || (int)P.y.odd() != (in[0] & 1) ? 0 : 33;
    }
    if (in[0] == 4 || in[0] == 6 || in[0] == 7)
    {
        if (n_ < 65) return 0;
        Z x = Z::bytes(in + 1, 32), y = Z::bytes(in + 33, 32);
        if (x >= p() || y >= p() || !on(x, y)) return 0;
        if (in[0] != 4 && (int)y.odd() != (in[0] & 1)) return 0;
        P.x = x, P.y = y, P.inf = false;
        return 65;
    }
    return 0;
}
// ---- group 2, on the twist y^2 = x^3 + 5u
struct P2
{
    F2   x, y;
    bool inf = false;
    bool operator==(const P2& o) const { return inf == o.inf && (inf || (x == o.x && y == o.y)); }
    Bytes xy() const { return cat({x.to(), y.to()}); }
};
inline bool on(const P2& t) { return t.y * t.y == t.x * t.x * t.x + F2{Z(0), Z(5)}; }
inline P2 neg(const P2& a)
{
    P2 r = a;
    r.y  = F2{Z(0), Z(0)} - a.y;
    return r;
}
inline F2 slope(const P2& a, const P2& b)
{
    if (a.x == b.x) { F2 t = a.x * a.x; return (t + t + t) * inv(a.y + a.y); }
    return (b.y - a.y) * inv(b.x - a.x);
}
inline P2 add(const P2& a, const P2& b)
{
    if (a.inf) return b;
    if (b.inf) return a;
    if (a.x == b.x && !(a.y == b.y && !a.y.zero()))
    {
        P2 r;
        r.inf = true;
        return r;
    }
    F2 l = slope(a, b);
    P2 r;
    r.x = l * l - a.x - b.x;
    r.y = l * (a.x - r.x) - a.y;
    return r;
}
inline P2 mul(const Z& k, const P2& P)
{
    P2 r;
    r.inf = true;
    for (int i = k.bits() - 1; i >= 0; i--)
    {
        r = add(r, r);
        if (k.bit(i)) r = add(r, P);
    }
    return r;
}
inline P1 G1()
{
    static P1 g = mulg1(Z(1));
    return g;
}
inline const P2& G2()
{
    static P2 g = [] {
        P2 t;
        t.x = {Z::hex("3722755292130B08D2AAB97FD34EC120EE265948D19C17ABF9B7213BAF82D65B"), Z::hex("85AEF3D078640C98597B6027B441A01FF1DD2C190F5E93C454806C11D8806141")};
        t.y = {Z::hex("A7CF28D519BE3DA65F3170153D278FF247EFBA98A71A08116215BBA5C999A7C7"), Z::hex("17509B092E845C1266BA0D262CBEE6ED0736A96FA347C8BD856DC76B84EBEB96")};
        return t;
    }();
    return g;
}
// fixed-base table for [k]P2
inline P2 mulg2(const Z& k)
{
    static std::vector<P2> tab;
    if (tab.empty())
    {
        P2 t = G2();
        for (int i = 0; i < 64; i++)
        {
            P2 s = t;
            for (int j = 1; j < 16; j++) tab.push_back(s), s = add(s, t);
            t = s;
        }
    }
    P2 r;
    r.inf = true;
    Z kk  = k % n();
    for (int i = 0; i < 64; i++)
    {
        int d = kk.bit(4 * i) | kk.bit(4 * i + 1) << 1 | kk.bit(4 * i + 2) << 2 | kk.bit(4 * i + 3) << 3;
        if (d) r = add(r, tab[i * 15 + d - 1]);
    }
    return r;
}
// line through (images of) A and B at P, up to factors of proper subfields
inline F line(const P2& A, const P2& B, const P1& P)
{
    // l(P) = yP - yA - s (xP - xA), with x = x' w^-2, y = y' w^-3, s = s' w^-1;
    // times w^3: yP w^3 - yA' - s' (xP w^2 - xA')
    F2 s = slope(A, B), k = s * A.x - A.y;
    F  f;
    f.set(0, k.a), f.set(6, k.b);
    f.set(3, P.y);
    F2 q = F2{Z(0), Z(0)} - s * F2{P.x, Z(0)};
    f.set(2, q.a), f.set(8, q.b);
    return f;
}
inline F pairing(const P1& P, const P2& Q)
{
    // R-ate, a = 6t+2
    static const Z a = Z::hex("600000000058F98A") * Z(6) + Z(2);
    F  f(1);
    P2 T = Q;
    for (int i = a.bits() - 2; i >= 0; i--)
    {
        f = f * f * line(T, T, P);
        T = add(T, T);
        if (a.bit(i))
        {
            f = f * line(T, Q, P);
            T = add(T, Q);
        }
    }
    // Frobenius on the image: (x' w^-2)^p = conj(x') w^-2 * (w^(1-p))^2
    static const Z c1 = invp(powmod(p() - Z(2), (p() - Z(1)) / Z(12), p()));
    F2 k2{mulp(c1, c1), Z(0)}, k3{mulp(mulp(c1, c1), c1), Z(0)};
    P2 Q1, Q2;
    Q1.x = conj(Q.x) * k2, Q1.y = conj(Q.y) * k3;
    Q2.x = conj(Q1.x) * k2, Q2.y = conj(Q1.y) * k3;
    if (!on(Q1) || !on(Q2)) ossl::die("Frobenius image off the twist");
    f = f * line(T, Q1, P);
    T = add(T, Q1);
    f = f * line(T, neg(Q2), P);
    // final exponentiation
    F g = frob(f, 6) * finv(f);
    g   = frob(g, 2) * g;
    static const Z h = [] {
        Z p2 = p() * p(), p4 = p2 * p2;
        return (p4 - p2 + Z(1)) / n();
    }();
    return fpow(g, h);
}
// g = e(P1,P2) with a fixed-base table
inline const F& g12()
{
    static F g = pairing(G1(), G2());
    return g;
}
inline F gpow(const Z& k)
{
    static std::vector<F> tab;
    if (tab.empty())
    {
        F t = g12();
        for (int i = 0; i < 64; i++)
        {
            F s = t;
            for (int j = 1; j < 16; j++) tab.push_back(s), s = s * t;
            t = s;
        }
    }
    F r(1);
    Z kk = k % n();
    for (int i = 0; i < 64; i++)
    {
        int d = kk.bit(4 * i) | kk.bit(4 * i + 1) << 1 | kk.bit(4 * i + 2) << 2 | kk.bit(4 * i + 3) << 3;
        if (d) r = r * tab[i * 15 + d - 1];
    }
    return r;
}
// one-time confidence in the reference itself
inline void selfcheck()
{
    static bool done = false;
    if (done) return;
    done = true;
    // GB/T 38635.2 example: e(P1, Ppub-s) for ks = 0130E7..
    Z  ks = Z::hex("000130E78459D78545CB54C587E02CF480CE0B66340F319F348A1D5B1F2DC5F4");
    F  g  = gpow(ks);
    if (!on(G2()) || !mul(n(), G2()).inf) ossl::die("P2 is not in the group");
    if (g12().one() || !fpow(g12(), n()).one()) ossl::die("reference pairing degenerate");
    if (g != pairing(G1(), mulg2(ks))) ossl::die("reference pairing not bilinear");
    static const char* ex = "4E378FB5561CD0668F906B731AC58FEE25738EDF09CADC7A29C0ABC0177AEA6D";
    if (g.at(wi(2, 1, 1)) != Z::hex(ex)) ossl::die("reference pairing differs from the standard's example");
}
// edge-biased scalar in [1, N-1]
// a pair of coordinates that satisfies one half of the equation of the second curve
inline P2 half_on(Rnd& r, bool imag)
{
    for (;;)
    {
        P2 t;
        t.x = F2{rndmod(r, p()), rndmod(r, p())};
        F2 v = t.x * t.x * t.x + F2{Z(0), Z(5)};
        Z  d = rndmod(r, p());
        if (imag)
        {
            if (d.zero()) continue;
            t.y = F2{d, mulp(v.b, invp(addp(d, d)))};
        }
        else
        {
            Z q = addp(v.a, mulp(Z(2), mulp(d, d))), s;
            if (!BN_mod_sqrt(s.b, q.b, p().b, Z::ctx())) { ERR_clear_error(); continue; }
            t.y = F2{s, d};
        }
        if (!on(t)) return t;
    }
}
inline Z rndscalar(Rnd& r)
{
    Z k;
    switch (r.below(10))
    {
    case 0: k = Z(1 + r.below(40)); break;
    case 1: k = n() - Z(1 + r.below(40)); break;
    case 2: k = rnd256(r) % n(); break;
    case 3: k = (n() >> 1) + Z(r.below(5)) - Z(2); break;
    case 4: k = (r.below(2) ? pow2(256) / Z(3) : pow2(257) / Z(3)) + Z(r.below(7)) - Z(3); break;
    case 5: k = pow2((int)r.below(256)) + Z(r.below(3)) - Z(1); break;
    case 6:
    case 7:
        k = Z(r.below(4) == 0 ? special::pick(special::kSm9GT, r) : r.below(2) ? special::pick(special::kSm9G1, r) : special::pick(special::kSm9G2, r));
        if (r.below(3) == 0) k = n() - k;
        break;
    default:
        k = Z::bytes(r.bytes(32)) % n();
        if (r.below(4) == 0) k = n() - k;
    }
    k = k % n();
    return k.zero() ? Z(1) : k;
}
inline P1 rndp1(Rnd& r)
{
    static const struct { int y; const char* x; } sy[] = {{2, "0000000000000000F300000002A3A6F2780272354F8B78F4D5FC11967BE65334"}, {6, "0678C0259B57A1739F2F020A4E81D7B17279892BB8EDE7CCDCC4912F4FC4E3B0"}, {7, "1B74F86989AE83AD6E520B32A0F40C05870720999CC6BBE91A594DE58A121BD4"}, {12, "20BC14B576E7CA65E36EA53F02054F74DCB86A66487BD442C244499E1D619908"}};
    switch (r.below(7))
    {
    case 0: // small x
        for (;;)
        {
            P1 t = lift(Z(r.below(100)), (int)r.below(2));
            if (!t.inf) return t;
        }
    case 3: // unusual words, plain or in Montgomery form
        for (;;)
        {
            P1 t = lift(rndmod(r, p()), (int)r.below(2));
            if (!t.inf) return t;
        }
    case 1: // x just below p
        for (;;)
        {
            P1 t = lift(p() - Z(1 + r.below(100)), (int)r.below(2));
            if (!t.inf) return t;
        }
    case 2:
    {
        auto& e = sy[r.below(4)];
        P1    t;
        t.x = Z::hex(e.x), t.y = Z((u64)e.y);
        return r.below(2) ? neg(t) : t;
    }
    default: return mulg1(rndscalar(r));
    }
}
} // namespace sm9r
