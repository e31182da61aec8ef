// C23..C25: SM9 fields, groups and pairing
#include "sm9ref.h"
#include <gmlib/sm9/internal/sm9_field.h>
using namespace vf;
using namespace sm9r;
namespace s9 = sm9::internal;

// ---------------------------------------------------------------- C23
// one tower level: D coefficients, powers of w in memory order
template <class T> struct E { T v; };
template <int D> inline const int* wmap()
{
    static int m[12];
    int        n_ = 0;
    for (int i = 0; i < (D == 12 ? 3 : 1); i++)
        for (int j = 0; j < (D >= 4 ? 2 : 1); j++)
            for (int k = 0; k < (D >= 2 ? 2 : 1); k++) m[n_++] = wi(i, j, k);
    return m;
}
template <int D> Bytes encd(const F& a)
{
    Bytes r;
    for (int i = D - 1; i >= 0; i--)
    {
        Bytes t = a.at(wmap<D>()[i]).to(32);
        r.insert(r.end(), t.begin(), t.end());
    }
    return r;
}
template <int D> F rndel(Rnd& r)
{
    F    f;
    int  st = (int)r.below(6), keep = (int)r.below(D);
    for (int i = 0; i < D; i++)
    {
        Z z;
        switch (st)
        {
        case 0: z = i == keep ? rndmod(r, p()) : Z(0); break; // one coefficient only
        case 1: z = i == keep ? Z(0) : rndmod(r, p()); break;
        case 2: z = r.chance(1, 2) ? p() - Z(1) : Z(r.below(3)); break;
        default: z = rndmod(r, p());
        }
        f.set(wmap<D>()[i], z);
    }
    return f;
}
static F mono(int k)
{
    F f;
    f.c[k][0] = 1;
    return f;
}
#define LEVEL(NAME, DEG)                                                                                    \
    struct L_##NAME                                                                                         \
    {                                                                                                       \
        static constexpr int D = DEG;                                                                       \
        typedef s9::sm9_##NAME##_t T;                                                                       \
        static const char* name() { return #NAME; }                                                         \
        static constexpr auto to = &s9::sm9_##NAME##_to_bytes;                                              \
        static constexpr auto from = &s9::sm9_##NAME##_from_bytes;                                          \
        static constexpr auto cpy = &s9::sm9_##NAME##_cpy;                                                  \
        static constexpr auto equal = &s9::sm9_##NAME##_equal;                                              \
        static constexpr auto eq0 = &s9::sm9_##NAME##_equal_zero;                                           \
        static constexpr auto eq1 = &s9::sm9_##NAME##_equal_one;                                            \
        static constexpr auto set0 = &s9::sm9_##NAME##_set_zero;                                            \
        static constexpr auto set1 = &s9::sm9_##NAME##_set_one;                                             \
        static constexpr auto add = &s9::sm9_##NAME##_add;                                                  \
        static constexpr auto neg = &s9::sm9_##NAME##_neg;                                                  \
        static constexpr auto sub = &s9::sm9_##NAME##_sub;                                                  \
        static constexpr auto mul = &s9::sm9_##NAME##_mul;                                                  \
        static constexpr auto sqr = &s9::sm9_##NAME##_sqr;                                                  \
        static constexpr auto inv = &s9::sm9_##NAME##_inv;                                                  \
    };
LEVEL(fp, 1)
LEVEL(fp2, 2)
LEVEL(fp4, 4)
LEVEL(fp12, 12)
template <class L> struct Ops
{
    typedef typename L::T T;
    Ctx&                  c;
    F                     a, b;
    Bytes                 ea, eb;
    Ops(Ctx& c_, const F& a_, const F& b_) : c(c_), a(a_), b(b_), ea(encd<L::D>(a_)), eb(encd<L::D>(b_)) {}
    void load(E<T>& e, const Bytes& x) { L::from(e.v, x.data()); }
    std::string w(const char* op) { return std::string(L::name()) + " " + op + " of " + hex(ea) + " and " + hex(eb); }
    void chk(const char* op, E<T>& r, const F& val)
    {
        Bytes ex = encd<L::D>(val);
        Buf   o(ex.size());
        L::to(o, r.v);
        c.out(o.bytes());
        std::string key = std::string(L::name()) + "-" + op;
        if (c.eq(key.c_str(), o.bytes(), ex, w(op)))
        { // representation canonical: comparisons agree with the value
            E<T> s;
            load(s, ex);
            if (!L::equal(r.v, s.v) || L::eq0(r.v) != val.zero() || L::eq1(r.v) != val.one()) c.fail((std::string(L::name()) + "-canonical").c_str(), "result not in canonical form: %s", w(op).c_str());
        }
        if (!o.ok()) c.fail("overrun", "to_bytes wrote outside its buffer");
    }
    template <class Fn> void un(const char* op, Fn f, const F& val)
    {
        E<T> x, r;
        load(x, ea);
        f(r.v, x.v), chk(op, r, val);
        chk("operand", x, a);
        f(x.v, x.v), chk(op, x, val);
    }
    template <class Fn> void bin(const char* op, Fn f, const F& val, const F& self)
    {
        E<T> x, y, r;
        load(x, ea), load(y, eb);
        f(r.v, x.v, y.v), chk(op, r, val);
        chk("operand", x, a), chk("operand", y, b);
        f(x.v, x.v, y.v), chk(op, x, val);
        load(x, ea);
        f(y.v, x.v, y.v), chk(op, y, val);
        f(r.v, x.v, x.v), chk(op, r, self);
        f(x.v, x.v, x.v), chk(op, x, self);
    }
    // second operand of another type
    template <class T2, class Fn> void mix(const char* op, Fn f, const E<T2>& y, const F& val)
    {
        E<T> x, r;
        load(x, ea);
        f(r.v, x.v, y.v), chk(op, r, val);
        f(x.v, x.v, y.v), chk(op, x, val);
    }
    void common()
    {
        bin("add", L::add, a + b, a + a);
        bin("sub", L::sub, a - b, F());
        bin("mul", L::mul, a * b, a * a);
        un("neg", L::neg, F() - a);
        un("sqr", L::sqr, a * a);
        un("cpy", L::cpy, a);
        if (!a.zero()) un("inv", L::inv, finv(a));
        E<T> x, y;
        load(x, ea), load(y, eb);
        if (L::equal(x.v, y.v) != (a == b)) c.fail((std::string(L::name()) + "-equal").c_str(), "%s", w("equal").c_str());
        if (L::eq0(x.v) != a.zero() || L::eq1(x.v) != a.one()) c.fail((std::string(L::name()) + "-is").c_str(), "%s", w("equal to zero/one").c_str());
        // differing in one coefficient, every coefficient
        for (int i = 0; i < L::D; i++)
        {
            F t = a;
            t.set(wmap<L::D>()[i], addp(a.at(wmap<L::D>()[i]), Z(1)));
            load(y, encd<L::D>(t));
            if (L::equal(x.v, y.v)) c.fail((std::string(L::name()) + "-equal").c_str(), "elements differing in coefficient %d called equal: %s", i, hex(ea).c_str());
            F u = mono(wmap<L::D>()[i]);
            load(y, encd<L::D>(u));
            if (L::eq0(y.v) || L::eq1(y.v) != (wmap<L::D>()[i] == 0)) c.fail((std::string(L::name()) + "-is").c_str(), "zero/one test of basis element %d", i);
        }
        L::set0(x.v), chk("set-zero", x, F());
        L::set1(x.v), chk("set-one", x, F(1));
        if (a == b) c.tag("equal operands");
        if (a.zero()) c.tag("zero operand");
    }
    // unreduced coefficients
    void unreduced(Rnd& r)
    {
        Bytes e;
        F     v;
        for (int i = L::D - 1; i >= 0; i--)
        {
            Z z = r.chance(1, 2) ? Z::bytes(r.ebytes(32)) : p() + Z(r.below(3)) - Z(1);
            v.set(wmap<L::D>()[i], z % p());
            Bytes t = z.to(32);
            e.insert(e.end(), t.begin(), t.end());
        }
        E<T> x;
        Buf  in(e, r.below(5));
        L::from(x.v, in);
        chk("from-unreduced", x, v);
    }
};
template <int D> F relate(Ctx& c, const F& a)
{
    switch (c.r.below(6))
    {
    case 0: return a;
    case 1: return F() - a;
    case 2: return a.zero() ? a : finv(a);
    case 3: return F(1);
    default: return rndel<D>(c.r);
    }
}
template <class L> F two(Ctx& c, F& a)
{
    a   = rndel<L::D>(c.r);
    F b = relate<L::D>(c, a);
    c.in(encd<L::D>(a)), c.in(encd<L::D>(b));
    c.sample(hex(encd<L::D>(a)) + " and " + hex(encd<L::D>(b)));
    return b;
}
VF_CASE("C23", "fp", 20000, 0.15, 12, [](Ctx& c) {
    F a, b = two<L_fp>(c, a);
    Ops<L_fp> o(c, a, b);
    o.common(), o.unreduced(c.r);
    o.un("dbl", s9::sm9_fp_dbl, a + a);
    o.un("tpl", s9::sm9_fp_tpl, a + a + a);
    // square root
    Z  z = a.at(0), e = powmod(z, (p() - Z(1)) >> 1, p());
    bool sq = z.zero() || e.one();
    c.tag(sq ? "squares" : "non-squares");
    E<s9::sm9_fp_t> x, r, t;
    o.load(x, o.ea);
    for (int al = 0; al < 2; al++)
    {
        E<s9::sm9_fp_t>& d = al ? x : r;
        int rc = s9::sm9_fp_sqrt(d.v, x.v);
        if ((rc == 0) != sq) c.fail(z.zero() ? "sqrt-zero" : "sqrt-status", "square root of %s returns %d", z.str().c_str(), rc);
        else if (sq)
        {
            s9::sm9_fp_sqr(t.v, d.v);
            o.chk("sqrt", t, a);
        }
        c.out((u64)(rc == 0));
    }
    // conversions
    s9::sm9_bn_t bn, bm;
    s9::sm9_fn_t fn;
    Bytes        o32(32);
    o.load(x, o.ea);
    s9::sm9_fp_to_bn(bn, x.v), s9::sm9_bn_to_bytes(o32.data(), bn);
    c.eq("fp-to-bn", o32, z.to(32), "fp to bn of " + z.str());
    s9::sm9_fp_from_bn(r.v, bn);
    o.chk("from-bn", r, a);
    s9::sm9_fn_from_fp(fn, x.v), s9::sm9_fn_to_bytes(o32.data(), fn);
    c.eq("fn-from-fp", o32, (z % n()).to(32), "fn from fp of " + z.str());
    c.out(o32);
    Z y = rndmod(c.r, n()), q = rndmod(c.r, n());
    if (c.r.chance(1, 4)) q = y;
    if (c.r.chance(1, 4)) q = (n() - y) % n();
    s9::sm9_fn_t fy, fq, fr;
    s9::sm9_fn_from_bytes(fy, y.to(32).data()), s9::sm9_fn_from_bytes(fq, q.to(32).data());
    s9::sm9_fn_to_fp(r.v, fy);
    F yy;
    yy.set(0, y);
    o.chk("fn-to-fp", r, yy);
    s9::sm9_fn_to_bn(bn, fy), s9::sm9_bn_to_bytes(o32.data(), bn);
    c.eq("fn-to-bn", o32, y.to(32), "fn to bn");
    s9::sm9_fn_from_bn(fr, bn);
    auto fchk = [&](const char* k, const Z& v) {
        s9::sm9_fn_to_bytes(o32.data(), fr);
        c.eq(k, o32, v.to(32), fmt("%s of %s and %s", k, y.str().c_str(), q.str().c_str()));
        s9::sm9_fn_t g;
        s9::sm9_fn_from_bytes(g, v.to(32).data());
        if (!s9::sm9_fn_equal(fr, g) || s9::sm9_fn_equal_zero(fr) != v.zero() || s9::sm9_fn_equal_one(fr) != v.one()) c.fail("fn-canonical", "%s of %s and %s", k, y.str().c_str(), q.str().c_str());
        c.out(o32);
    };
    fchk("fn-from-bn", y);
    s9::sm9_fn_add(fr, fy, fq), fchk("fn-add", (y + q) % n());
    s9::sm9_fn_sub(fr, fy, fq), fchk("fn-sub", (y - q) % n());
    s9::sm9_fn_mul(fr, fy, fq), fchk("fn-mul", mulmod(y, q, n()));
    s9::sm9_fn_sqr(fr, fy), fchk("fn-sqr", mulmod(y, y, n()));
    s9::sm9_fn_cpy(fr, fy), fchk("fn-cpy", y);
    if (!y.zero()) s9::sm9_fn_inv(fr, fy), fchk("fn-inv", invmod(y, n()));
    if (s9::sm9_fn_equal(fy, fq) != (y == q)) c.fail("fn-equal", "%s %s", y.str().c_str(), q.str().c_str());
    s9::sm9_fn_set_zero(fr), fchk("fn-set", Z(0));
    s9::sm9_fn_set_one(fr), fchk("fn-set", Z(1));
    Bytes any = c.r.ebytes(c.r.below(90));
    s9::sm9_fn_from_bytes_ex(fr, Buf(any, c.r.below(5)), any.size()), fchk("fn-from-bytes-ex", Z::bytes(any) % n());
    // integers modulo n-1, n-2, n-3
    Z v = c.r.chance(1, 3) ? n() + Z(c.r.below(6)) - Z(4) : rnd256(c.r);
    for (u64 k = 1; k <= 3; k++)
    {
        s9::sm9_bn_from_bytes(bn, v.to(32).data());
        (k == 1 ? s9::sm9_bn_mod_n_sub1 : k == 2 ? s9::sm9_bn_mod_n_sub2 : s9::sm9_bn_mod_n_sub3)(bn);
        s9::sm9_bn_to_bytes(o32.data(), bn);
        c.eq("bn-mod", o32, (v % (n() - Z(k))).to(32), fmt("%s mod N-%d", v.str().c_str(), (int)k));
        c.out(o32);
    }
    s9::sm9_bn_mod_n_sub1_ex(bn, Buf(any, c.r.below(5)), any.size());
    s9::sm9_bn_to_bytes(o32.data(), bn);
    c.eq("bn-mod-ex", o32, (Z::bytes(any) % (n() - Z(1))).to(32), hex(any) + " mod N-1");
    u32 w = (u32)c.r.pick({(u64)0, (u64)1, (u64)0xffffffff, c.r.next()});
    s9::sm9_bn_from_bytes(bn, v.to(32).data());
    s9::sm9_bn_from_bytes(bm, v.to(32).data());
    int cy = s9::sm9_bn_add_uint32(bn, bn, w);
    Z   s  = v + Z(w);
    s9::sm9_bn_to_bytes(o32.data(), bn);
    c.eq("bn-add", o32, (s % pow2(256)).to(32), v.str() + " + word");
    if ((cy != 0) != (s >= pow2(256))) c.fail("bn-add", "carry of %s + %x", v.str().c_str(), w);
    Z cmpv = s % pow2(256);
    int e3 = cmpv < v ? -1 : cmpv == v ? 0 : 1, g3 = s9::sm9_bn_cmp(bn, bm);
    if ((g3 > 0) - (g3 < 0) != e3) c.fail("bn-cmp", "cmp");
    if (s9::sm9_bn_equal_zero(bn) != cmpv.zero()) c.fail("bn-zero", "equal_zero");
});
VF_CASE("C23", "fp2", 12000, 0.15, 12, [](Ctx& c) {
    F a, b = two<L_fp2>(c, a);
    Ops<L_fp2> o(c, a, b);
    o.common(), o.unreduced(c.r);
    o.un("dbl", s9::sm9_fp2_dbl, a + a);
    o.un("tpl", s9::sm9_fp2_tpl, a + a + a);
    o.un("mul-u", s9::sm9_fp2_mul_u, a * mono(6));
    F k = rndel<1>(c.r);
    E<s9::sm9_fp_t> y;
    s9::sm9_fp_from_bytes(y.v, encd<1>(k).data());
    o.mix("mul-fp", s9::sm9_fp2_mul_fp, y, a * k);
});
VF_CASE("C23", "fp4", 8000, 0.15, 12, [](Ctx& c) {
    F a, b = two<L_fp4>(c, a);
    Ops<L_fp4> o(c, a, b);
    o.common(), o.unreduced(c.r);
    o.un("mul-v", s9::sm9_fp4_mul_v, a * mono(3));
    F k = rndel<1>(c.r), k2 = rndel<2>(c.r);
    E<s9::sm9_fp_t> y;
    s9::sm9_fp_from_bytes(y.v, encd<1>(k).data());
    o.mix("mul-fp", s9::sm9_fp4_mul_fp, y, a * k);
    E<s9::sm9_fp2_t> y2;
    s9::sm9_fp2_from_bytes(y2.v, encd<2>(k2).data());
    o.mix("mul-fp2", s9::sm9_fp4_mul_fp2, y2, a * k2);
});
VF_CASE("C23", "fp12", 3000, 0.15, 12, [](Ctx& c) {
    F a, b = two<L_fp12>(c, a);
    Ops<L_fp12> o(c, a, b);
    o.common(), o.unreduced(c.r);
    F k = rndel<4>(c.r);
    E<s9::sm9_fp4_t> y;
    s9::sm9_fp4_from_bytes(y.v, encd<4>(k).data());
    o.mix("mul-fp4", s9::sm9_fp12_mul_fp4, y, a * k);
});
VF_CASE("C23", "fp12-pow", 1200, 0.12, 12, [](Ctx& c) {
    F a = c.r.chance(1, 4) ? gpow(rndscalar(c.r)) : rndel<12>(c.r);
    Z e;
    switch (c.r.below(8))
    {
    case 0: e = Z(c.r.below(40)); break;
    case 1: e = pow2(256) - Z(1 + c.r.below(5)); break;
    case 2: e = Z(1 + c.r.below(15)) << (int)(4 * c.r.below(64)); break; // one nibble
    case 3: e = Z(1 + c.r.below(255)) << (int)(8 * c.r.below(32)); break;
    case 4: e = rnd256(c.r); break;
    case 5: e = Z::bytes(c.r.bytes(1 + c.r.below(31))); break; // leading zero bytes
    default: e = rndscalar(c.r);
    }
    if (c.idx < 3) e = Z(c.idx);
    if (a.zero() && e.zero()) e = Z(1);
    c.in(encd<12>(a)), c.in(e.to(32));
    c.sample("exponent " + e.str());
    c.tag(e.zero() ? "exponent zero" : "exponent nonzero");
    F v = fpow(a, e);
    Ops<L_fp12> o(c, a, v);
    Buf kb(e.to(32), c.r.below(5));
    o.un("pow", [&](s9::sm9_fp12_t r, const s9::sm9_fp12_t x) { s9::sm9_fp12_pow(r, x, kb); }, v);
});
VF_REQ("C23", "squares", "non-squares", "equal operands", "zero operand", "exponent zero", "exponent nonzero");

// ---------------------------------------------------------------- C24
struct G1L
{
    typedef P1            Pt;
    typedef s9::sm9_ec_a  A;
    typedef s9::sm9_ec_j  J;
    typedef s9::sm9_ec_t  U;
    static const char* name() { return "G1"; }
    static constexpr auto  toa = &s9::sm9_ec_j_to_a;
    static Bytes aff(const A P) { Bytes o(64); s9::sm9_ec_a_to_bytes04(o.data(), P); return o; }
    static void  seta(A R, const P1& P) { s9::sm9_ec_a_from_bytes04(R, P.xy().data()); }
    static void  setj(J R, const P1& P, Rnd& r)
    {
        Z z = r.chance(1, 3) ? Z(1) : rndmod(r, p());
        if (z.zero()) z = Z(1);
        Z z2 = mulp(z, z);
        s9::sm9_fp_from_bytes(R[0], mulp(P.x, z2).to(32).data());
        s9::sm9_fp_from_bytes(R[1], mulp(P.y, mulp(z2, z)).to(32).data());
        s9::sm9_fp_from_bytes(R[2], z.to(32).data());
    }
    static P1   rnd(Rnd& r) { return rndp1(r); }
    static P1   mulg(const Z& k) { return sm9r::mulg1(k); }
    static P1   gen() { return G1(); }
    static bool z1(const J a) { return s9::sm9_fp_equal_one(a[2]); }
    static P1   off(const P1& P, Rnd& r) { P1 t = P; t.y = addp(P.y, Z(1 + r.below(3))); t.inf = on(t.x, t.y); return t; }
#define OP(n) static constexpr auto n = &s9::sm9_ec_##n;
    OP(a_check) OP(a_neg) OP(a_cpy) OP(j_cpy) OP(j_is_inf) OP(j_set_inf) OP(j_neg) OP(j_add) OP(j_add_a) OP(j_dbl) OP(j_mul_a) OP(j_mul_g) OP(j_from_a) OP(j_to_a) OP(j_normal) OP(j_equal)
#undef OP
};
struct G2L
{
    typedef P2            Pt;
    typedef s9::sm9_ec2_a A;
    typedef s9::sm9_ec2_j J;
    typedef s9::sm9_ec2_t U;
    static const char* name() { return "G2"; }
    static Bytes aff(const A P)
    {
        Bytes o(128);
        s9::sm9_fp2_to_bytes(o.data(), P[0]), s9::sm9_fp2_to_bytes(o.data() + 64, P[1]);
        return o;
    }
    static void seta(A R, const P2& P)
    {
        s9::sm9_fp2_from_bytes(R[0], P.x.to().data()), s9::sm9_fp2_from_bytes(R[1], P.y.to().data());
    }
    static void setj(J R, const P2& P, Rnd& r)
    {
        F2 z{Z(1), Z(0)};
        if (!r.chance(1, 3)) z = {rndmod(r, p()), rndmod(r, p())};
        if (z.zero()) z = {Z(1), Z(0)};
        F2 z2 = z * z;
        s9::sm9_fp2_from_bytes(R[0], (P.x * z2).to().data());
        s9::sm9_fp2_from_bytes(R[1], (P.y * (z2 * z)).to().data());
        s9::sm9_fp2_from_bytes(R[2], z.to().data());
    }
    static P2   rnd(Rnd& r) { return mulg2(rndscalar(r)); }
    static P2   mulg(const Z& k) { return mulg2(k); }
    static P2   gen() { return G2(); }
    static bool z1(const J a) { return s9::sm9_fp2_equal_one(a[2]); }
    static P2   off(const P2& P, Rnd& r)
    {
        P2 t = P;
        (r.below(2) ? t.y.a : t.y.b) = addp(r.below(2) ? t.y.a : t.y.b, Z(1 + r.below(3)));
        t.inf = on(t);
        return t;
    }
#define OP(n) static constexpr auto n = &s9::sm9_ec2_##n;
    OP(a_check) OP(a_neg) OP(a_cpy) OP(j_cpy) OP(j_is_inf) OP(j_set_inf) OP(j_neg) OP(j_add) OP(j_add_a) OP(j_dbl) OP(j_mul_a) OP(j_mul_g) OP(j_from_a) OP(j_to_a) OP(j_normal) OP(j_equal)
#undef OP
};
template <class G> Bytes affj(const typename G::J a)
{
    typename G::A t;
    G::j_to_a(t, a);
    return G::aff(t);
}
template <class P> std::string ps(const P& a) { return a.inf ? "inf" : hex(a.xy()); }
template <class G> void smul(Ctx& c)
{
    selfcheck();
    Z k = c.idx < 260 ? (c.idx < 20 ? Z(1 + c.idx) : c.idx < 40 ? n() - Z(c.idx - 19) : pow2((int)(c.idx - 20) % 256) % n()) : rndscalar(c.r);
    if (k.zero()) k = Z(1);
    auto P = G::rnd(c.r), e = sm9r::mul(k, P), eg = G::mulg(k);
    Buf  kb(k.to(32), c.r.below(9));
    c.in(P.xy()), c.in(kb.bytes());
    c.sample("k = " + k.str() + ", P = " + ps(P));
    Z k3 = k * Z(3);
    c.tag(std::string(G::name()) + (k3 >= pow2(257) ? " 3k passes 2^257" : k3 >= pow2(256) ? " 3k passes 2^256" : " 3k below 2^256"));
    std::string   key = std::string(G::name()) + "-";
    typename G::A A;
    typename G::J J;
    G::seta(A, P);
    G::j_mul_a(J, kb, A);
    c.eq((key + "mul").c_str(), affj<G>(J), e.xy(), "[" + k.str() + "]" + ps(P));
    c.out(affj<G>(J));
    c.eq((key + "mul-operand").c_str(), G::aff(A), P.xy(), "operand of mul_a changed");
    G::j_mul_g(J, kb);
    c.eq((key + "mul-g").c_str(), affj<G>(J), eg.xy(), "[" + k.str() + "] generator");
    c.out(affj<G>(J));
    typename G::U u;
    G::seta(u.a, P);
    G::j_mul_a(u.j, kb, u.a);
    G::j_to_a(u.a, u.j);
    c.eq((key + "mul-alias").c_str(), G::aff(u.a), e.xy(), "[" + k.str() + "]" + ps(P) + " over its operand");
    if (kb.bytes() != k.to(32)) c.fail((key + "mul-operand").c_str(), "scalar changed");
}
// a cube root of unity modulo N: [w]P has the y coordinate of P
static const Z& omega()
{
    static const Z w = [] {
        Z e = (n() - Z(1)) / Z(3), b = Z(2);
        for (u64 g = 3; powmod(b, e, n()).one(); g++) b = Z((u64)g);
        return powmod(b, e, n());
    }();
    return w;
}
// a scalar that shares something with a: the negative (same x), a multiple by
// a cube root of unity (same y), a scalar with the same leading or final bytes
static Z relative(Rnd& r, const Z& a)
{
    Z x = a;
    switch (r.below(7))
    {
    case 0: break;
    case 1: x = n() - a; break;
    case 2: x = mulmod(a, omega(), n()); break;
    case 3: x = mulmod(a, mulmod(omega(), omega(), n()), n()); break;
    case 4: x = n() - mulmod(a, omega(), n()); break;
    case 5:
    {
        Bytes b = a.to(32);
        b[1 + r.below(31)] ^= (u8)(1 + r.below(255));
        x = Z::bytes(b) % n();
        break;
    }
    default: x = (a + Z(1)) % n();
    }
    return x.zero() ? Z(1) : x;
}
// one multiplication after another with points and scalars that share a coordinate or bytes
template <class G> void related(Ctx& c)
{
    selfcheck();
    Z             k = rndscalar(c.r), a = rndscalar(c.r);
    std::string   key = std::string(G::name()) + "-";
    typename G::A A;
    typename G::J J, J2;
    c.in(k.to(32)), c.in(a.to(32));
    for (int i = 0; i < 4; i++)
    {
        auto P = G::mulg(a);
        Z    ka = mulmod(k, a, n());
        auto e = G::mulg(ka);
        Buf  kb(k.to(32), c.r.below(9));
        G::seta(A, P);
        G::j_mul_a(J, kb, A);
        c.eq((key + "mul").c_str(), affj<G>(J), e.xy(), "[" + k.str() + "]" + ps(P) + " after a related one");
        G::j_mul_g(J, kb);
        c.eq((key + "mul-g").c_str(), affj<G>(J), G::mulg(k).xy(), "[" + k.str() + "] generator after a related one");
        if (!((k + a) % n()).zero())
        {
            G::j_add_a(J2, J, A);
            c.eq((key + "add-a").c_str(), affj<G>(J2), G::mulg(((k + a) % n())).xy(), "[" + k.str() + "] generator + [" + a.str() + "] generator");
        }
        if (c.r.chance(2, 3)) a = relative(c.r, a);
        if (c.r.chance(1, 2)) k = relative(c.r, k);
    }
    c.tag("points related to the last one");
}
template <class G> void law(Ctx& c)
{
    auto P = G::rnd(c.r), Q = P;
    switch (c.r.below(6))
    {
    case 0: break;
    case 1: Q = add(P, P); break;
    case 2: Q = neg(add(P, P)); break;
    case 3: Q = add(P, G::gen()); break;
    default: Q = G::rnd(c.r);
    }
    if (Q.inf) Q = P;
    auto e = add(P, Q), d = add(P, P);
    c.in(P.xy()), c.in(Q.xy()), c.in(c.r.s);
    c.sample(ps(P) + " + " + ps(Q));
    std::string   w = ps(P) + " and " + ps(Q);
    std::string   key = std::string(G::name()) + "-";
    typename G::J a, b, r;
    typename G::A qa;
    G::setj(a, P, c.r), G::setj(b, Q, c.r), G::seta(qa, Q);
    bool same = P == Q;
    if (same) c.tag("equal points");
    auto chk = [&](const char* k, const typename G::J x, const Bytes& v) {
        Bytes o = affj<G>(x);
        c.out(o);
        c.eq((key + k).c_str(), o, v, std::string(k) + " of " + w);
    };
    if (!e.inf)
    {
        Rnd s = c.r;
        G::j_add(r, a, b), chk("add", r, e.xy());
        if (G::j_is_inf(r)) c.fail((key + "is-inf").c_str(), "finite sum called infinite: %s", w.c_str());
        G::j_add(a, a, b), chk("add-alias", a, e.xy());
        G::setj(a, P, c.r);
        G::j_add(b, a, b), chk("add-alias", b, e.xy());
        G::setj(b, Q, c.r);
        G::j_add_a(r, a, qa), chk("add-mixed", r, e.xy());
        G::j_add_a(a, a, qa), chk("add-mixed", a, e.xy());
        G::setj(a, P, c.r);
        chk("operand", b, Q.xy());
        G::j_from_a(r, qa);
        typename G::A pa;
        G::seta(pa, P);
        G::j_add_a(r, r, pa), chk("add-mixed", r, e.xy());
    }
    G::j_dbl(r, a), chk("dbl", r, d.xy());
    G::j_dbl(a, a), chk("dbl", a, d.xy());
    G::setj(a, P, c.r);
    G::j_add(r, a, a), chk("add-self", r, d.xy());
    G::j_neg(r, a), chk("neg", r, neg(P).xy());
    if (G::j_equal(r, a)) c.fail((key + "equal").c_str(), "point equal to its negation: %s", w.c_str());
    G::j_neg(r, r), chk("neg", r, P.xy());
    G::a_neg(qa, qa);
    c.eq((key + "neg").c_str(), G::aff(qa), neg(Q).xy(), "affine negation of " + w);
    if (G::j_equal(a, b) != same) c.fail((key + "equal").c_str(), "comparison of %s", w.c_str());
    typename G::J other;
    G::setj(other, P, c.r);
    if (!G::j_equal(a, other)) c.fail((key + "equal").c_str(), "same point in two representations: %s", w.c_str());
    // same X, Z but other Y is caught above; same Y and Z but other X: (zeta x, y)
    G::j_normal(r, a), chk("normal", r, P.xy());
    if (!G::z1(r)) c.fail((key + "normal").c_str(), "normalised z is not one");
    chk("to-affine", a, P.xy());
    G::j_cpy(r, a), chk("copy", r, P.xy());
    G::j_set_inf(r);
    if (!G::j_is_inf(r) || G::j_is_inf(a)) c.fail((key + "is-inf").c_str(), "is_inf");
    G::seta(qa, Q);
    G::j_from_a(r, qa), chk("from-affine", r, Q.xy());
    typename G::A qb;
    G::a_cpy(qb, qa);
    c.eq((key + "copy").c_str(), G::aff(qb), Q.xy(), "affine copy");
    if (!G::a_check(qa)) c.fail((key + "check").c_str(), "point refused: %s", w.c_str());
    auto bad = G::off(Q, c.r);
    if (!bad.inf)
    {
        G::seta(qa, bad);
        if (G::a_check(qa)) c.fail((key + "check").c_str(), "point off the curve accepted: %s", ps(bad).c_str());
    }
    c.in(e.inf);
}
VF_CASE("C24", "scalar-multiplication-1", 2500, 0.12, 12, smul<G1L>);
VF_CASE("C24", "scalar-multiplication-2", 800, 0.15, 12, smul<G2L>);
VF_CASE("C24", "related-1", 400, 0.15, 12, related<G1L>);
VF_CASE("C24", "related-2", 200, 0.15, 12, related<G2L>);
VF_CASE("C24", "group-law-1", 5000, 0.12, 12, law<G1L>);
VF_CASE("C24", "group-law-2", 3000, 0.12, 12, law<G2L>);
// cube roots of unity move x and keep y: equality must look at x
VF_CASE("C24", "automorphism", 500, 0.2, 12, [](Ctx& c) {
    P1 P = rndp1(c.r), Q = P;
    Z  b = powmod(Z(2), (p() - Z(1)) / Z(3), p());
    if (b.one()) b = powmod(Z(3), (p() - Z(1)) / Z(3), p());
    Q.x = mulp(P.x, b);
    c.in(P.xy());
    s9::sm9_ec_j a, q;
    G1L::setj(a, P, c.r), G1L::setj(q, Q, c.r);
    if (!P.x.zero() && (!on(Q.x, Q.y) || s9::sm9_ec_j_equal(a, q))) c.fail("G1-equal", "points sharing y called equal: %s", ps(P).c_str());
    P2 S = mulg2(rndscalar(c.r)), T = S;
    T.x = S.x * F2{b, Z(0)};
    s9::sm9_ec2_j s, t;
    G2L::setj(s, S, c.r), G2L::setj(t, T, c.r);
    if (s9::sm9_ec2_j_equal(s, t)) c.fail("G2-equal", "points sharing y called equal: %s", ps(S).c_str());
});
static void chk_dec(Ctx& c, const Bytes& in, const char* what)
{
    P1           P;
    Bytes        o;
    size_t       e = dec(P, in.data(), in.size()), g = 0, rn = 0x5a5a;
    Buf          b(in, c.r.below(5));
    s9::sm9_ec_a R;
    if (s9::sm9_ec_a_from_bytes(R, &rn, b, in.size()) == 0) g = rn, o = G1L::aff(R);
    if (b.bytes() != in) c.fail("decode-input", "decoding changed its input");
    c.out((u64)g), c.out(o);
    c.tag(e ? "decodings accepted" : "decodings refused");
    if (!e && g) c.fail((std::string("decode-accepts-") + what).c_str(), "%s accepted: %s", what, hex(in).c_str());
    else if (e && !g) c.fail("decode-refuses", "%s refused: %s", what, hex(in).c_str());
    else if (e && g != e) c.fail("decode-length", "%s: %zu bytes consumed instead of %zu: %s", what, g, e, hex(in).c_str());
    else if (e) c.eq("decode", o, P.xy(), fmt("decoding %s of %s", what, hex(in).c_str()));
}
VF_CASE("C24", "encode-1", 3000, 0.2, 12, [](Ctx& c) {
    P1 P = rndp1(c.r);
    c.in(P.xy());
    c.sample("three forms of " + ps(P));
    s9::sm9_ec_a A;
    G1L::seta(A, P);
    Buf u(65, c.r.below(5)), z(33, c.r.below(5)), m(65, c.r.below(5));
    s9::sm9_ec_a_to_bytes_uncompressed(u, A);
    s9::sm9_ec_a_to_bytes_compressed(z, A);
    s9::sm9_ec_a_to_bytes_mix(m, A);
    c.eq("encode-uncompressed", u.bytes(), enc(P, 0), "uncompressed form");
    c.eq("encode-compressed", z.bytes(), enc(P, 1), "compressed form");
    c.eq("encode-hybrid", m.bytes(), enc(P, 2), "hybrid form");
    c.out(u.bytes()), c.out(z.bytes()), c.out(m.bytes());
    if (!u.ok() || !z.ok() || !m.ok()) c.fail("encode-overrun", "encoding wrote outside its buffer");
    for (int f = 0; f < 3; f++)
    {
        Bytes e = enc(P, f);
        chk_dec(c, e, "canonical encoding");
        e = cat({e, c.r.bytes(1 + c.r.below(40))});
        chk_dec(c, e, "encoding followed by other bytes");
    }
});
VF_CASE("C24", "decode-hostile-1", 6000, 0.2, 12, [](Ctx& c) {
    P1    P = rndp1(c.r);
    Bytes e = enc(P, (int)c.r.below(3));
    c.in(P.xy());
    int k = (int)(c.idx % 9);
    c.in((u64)k);
    c.sample("altered encoding of " + ps(P));
    Z room = pow2(256) - p();
    switch (k)
    {
    case 0:
        for (size_t l = 0; l < e.size(); l++) chk_dec(c, Bytes(e.begin(), e.begin() + l), "truncated");
        break;
    case 1:
        for (int t = 0; t < 256; t++) { e[0] = (u8)t; chk_dec(c, e, "prefix"); }
        break;
    case 2: // unreduced coordinates
        for (int i = 0; i < 50; i++)
        {
            P1 t = i < 25 ? rndp1(c.r) : lift(Z(c.r.below(1000)), (int)c.r.below(2));
            if (t.inf) continue;
            for (int f = 0; f < 3; f++)
            {
                Bytes b = enc(t, f);
                if (t.x < room)
                {
                    Bytes x = (t.x + p()).to(32);
                    std::memcpy(&b[1], x.data(), 32);
                    chk_dec(c, b, "unreduced x");
                    c.tag("unreduced x");
                }
                if (f != 1 && t.y < room)
                {
                    Bytes y = (t.y + p()).to(32);
                    b = enc(t, f);
                    std::memcpy(&b[33], y.data(), 32);
                    chk_dec(c, b, "unreduced y");
                    if (f == 2) b[0] ^= 1, chk_dec(c, b, "unreduced y");
                    c.tag("unreduced y");
                }
            }
        }
        break;
    case 3:
        e = enc(P, 2), e[0] ^= 1;
        c.tag("hybrid parity");
        chk_dec(c, e, "wrong hybrid parity");
        break;
    case 4:
        for (int i = 0; i < 24; i++)
        {
            Bytes b = e;
            b[c.r.below(b.size())] ^= (u8)(1 << c.r.below(8));
            chk_dec(c, b, "bit flip");
        }
        break;
    case 5:
    {
        Bytes b = c.r.ebytes(33);
        b[0] = (u8)(2 + c.r.below(2));
        chk_dec(c, b, "arbitrary x");
        Z x = c.r.below(2) ? p() + Z(c.r.below(4)) - Z(2) : pow2(256) - Z(1 + c.r.below(3));
        Bytes xb = x.to(32);
        std::memcpy(&b[1], xb.data(), 32);
        chk_dec(c, b, "x around p");
        break;
    }
    case 6:
    {
        Bytes b = c.r.ebytes(c.r.below(70));
        if (!b.empty() && c.r.below(2)) b[0] = (u8)(2 + c.r.below(6));
        chk_dec(c, b, "garbage");
        break;
    }
    case 7:
    {
        chk_dec(c, cat({{4}, P.y.to(32), P.x.to(32)}), "swapped coordinates");
        Bytes b(65, 0);
        chk_dec(c, b, "zeros");
        for (u8 t : {2, 3, 4, 6, 7}) { b[0] = t; chk_dec(c, b, "zero point"); }
        chk_dec(c, enc(neg(P), 0), "negated point");
        break;
    }
    default:
    {
        Z x = rndmod(c.r, p());
        while (!lift(x, 0).inf) x = addp(x, Z(1));
        chk_dec(c, cat({{(u8)(2 + c.r.below(2))}, x.to(32)}), "x without point");
        chk_dec(c, cat({{4}, x.to(32), rndmod(c.r, p()).to(32)}), "x without point");
    }
    }
});
VF_CASE("C24", "encode-2", 1500, 0.2, 12, [](Ctx& c) {
    P2 P = mulg2(rndscalar(c.r));
    c.in(P.xy());
    c.sample("coordinates of " + ps(P));
    s9::sm9_ec2_a A, R;
    G2L::seta(A, P);
    Buf o(128, c.r.below(5)), u(129, c.r.below(5));
    s9::sm9_ec2_a_to_bytes04(o, A);
    c.eq("encode2", o.bytes(), P.xy(), "coordinates of a second-group point");
    s9::sm9_ec2_a_to_bytes_uncompressed(u, A);
    c.eq("encode2-uncompressed", u.bytes(), cat({{4}, P.xy()}), "uncompressed form of a second-group point");
    if (!o.ok() || !u.ok()) c.fail("encode-overrun", "encoding wrote outside its buffer");
    Buf in(P.xy(), c.r.below(5));
    s9::sm9_ec2_a_from_bytes04(R, in);
    c.eq("decode2", G2L::aff(R), P.xy(), "second-group point from coordinates");
    c.out(o.bytes());
    auto dec2 = [&](const Bytes& e, bool good, const char* what) {
        Buf    b(e, c.r.below(5));
        size_t rn = 0x5a5a;
        int    rc = s9::sm9_ec2_a_from_bytes(R, &rn, b, e.size());
        if (good)
        {
            if (rc) c.fail("decode2-refuses", "uncompressed second-group point refused: %s", ps(P).c_str());
            else if (rn != 129) c.fail("decode2-length", "%zu bytes consumed", rn);
            else c.eq("decode2", G2L::aff(R), P.xy(), what);
        }
        else if (rc == 0) c.fail((std::string("decode2-accepts-") + what).c_str(), "%s accepted: %s", what, hex(e).c_str());
    };
    Bytes e = cat({{4}, P.xy()}), b;
    dec2(e, true, "uncompressed form");
    dec2(cat({e, c.r.bytes(3)}), true, "uncompressed form with bytes after it");
    dec2(Bytes(e.begin(), e.begin() + c.r.below(129)), false, "truncated");
    b = e;
    do b[0] = (u8)c.r.next();
    while (b[0] == 4 || b[0] == 2 || b[0] == 3 || b[0] == 6 || b[0] == 7);
    dec2(b, false, "prefix");
    b = e, b[1 + c.r.below(128)] ^= (u8)(1 << c.r.below(8));
    dec2(b, false, "bit flip");
    dec2(cat({{4}, half_on(c.r, c.idx & 1).xy()}), false, "half of the curve equation");
    for (int i = 0; i < 4; i++)
    {
        Z v = i < 2 ? (i ? P.x.a : P.x.b) : (i == 3 ? P.y.a : P.y.b);
        if (v >= pow2(256) - p()) continue;
        b = e;
        Bytes t = (v + p()).to(32);
        std::memcpy(&b[1 + 32 * i], t.data(), 32);
        dec2(b, false, "unreduced coordinate");
        c.tag("unreduced second-group coordinate");
    }
});
VF_REQ("C24", "G1 3k passes 2^257", "G1 3k passes 2^256", "G1 3k below 2^256", "G2 3k passes 2^257", "G2 3k passes 2^256", "G2 3k below 2^256", "equal points", "decodings accepted", "decodings refused", "unreduced x", "unreduced y", "hybrid parity", "unreduced second-group coordinate", "points related to the last one");

// ---------------------------------------------------------------- C25
static void pchk(Ctx& c, const char* key, const s9::sm9_fp12_t r, const F& v, const std::string& what)
{
    Bytes o(384);
    s9::sm9_fp12_to_bytes(o.data(), r);
    c.out(o);
    c.eq(key, o, enc12(v), what);
    if (s9::sm9_fp12_equal_one(r)) c.fail("degenerate", "pairing of finite points is one: %s", what.c_str());
}
static Z pscalar(Ctx& c, u64 i) { return i < 8 ? Z(1 + i) : i < 16 ? n() - Z(i - 7) : rndscalar(c.r); }
static void known_logs(Ctx& c, const Z& a, const Z& b)
{
    selfcheck();
    P1 P = mulg1(a);
    P2 Q = mulg2(b);
    c.in(a.to(32)), c.in(b.to(32));
    std::string w = "e([" + a.str() + "]P1, [" + b.str() + "]P2)";
    c.sample(w);
    s9::sm9_ec_a   pa;
    s9::sm9_ec2_a  qa;
    s9::sm9_fp12_t r;
    G1L::seta(pa, P), G2L::seta(qa, Q);
    s9::sm9_pairing(r, pa, qa);
    pchk(c, "pairing", r, gpow(mulmod(a, b, n())), w);
    s9::sm9_pairing_P1_Q(r, qa);
    pchk(c, "pairing-P1", r, gpow(b), "e(P1, [" + b.str() + "]P2)");
    s9::sm9_pairing_P_P2(r, pa);
    pchk(c, "pairing-P2", r, gpow(a), "e([" + a.str() + "]P1, P2)");
    c.eq("operand", G1L::aff(pa), P.xy(), "first operand changed");
    c.eq("operand", G2L::aff(qa), Q.xy(), "second operand changed");
}
VF_CASE("C25", "known-logarithms", 500, 0.15, 20, [](Ctx& c) { known_logs(c, pscalar(c, c.idx % 31), pscalar(c, c.idx % 37)); });
// every point of the tables of points with unusual coordinate words, and values e(P1, P2)^k with unusual words
VF_CASE("C25", "unusual-coordinates", 480, 0.15, 4, [](Ctx& c) {
    const size_t N1 = sizeof special::kSm9G1 / sizeof *special::kSm9G1, N2 = sizeof special::kSm9G2 / sizeof *special::kSm9G2, N3 = sizeof special::kSm9GT / sizeof *special::kSm9GT;
    Z a(1), b(1);
    if (c.idx < 240) a = Z(special::kSm9G1[c.idx % N1]), b = Z(special::kSm9G2[c.idx % N2]), c.tag("points with unusual coordinates");
    else a = rndscalar(c.r), b = mulmod(Z(special::kSm9GT[c.idx % N3]), invmod(a, n()), n()), c.tag("values with unusual coordinates");
    if (c.r.below(3) == 0) a = n() - a;
    if (c.r.below(3) == 0) b = n() - b;
    known_logs(c, a, b);
});
// pairings one after another of points that share a coordinate with the last
VF_CASE("C25", "related-points", 240, 0.15, 12, [](Ctx& c) {
    Z a = rndscalar(c.r), b = rndscalar(c.r);
    for (int i = 0; i < 4; i++)
    {
        known_logs(c, a, b);
        if (c.r.chance(3, 4)) a = relative(c.r, a);
        if (c.r.chance(3, 4)) b = relative(c.r, b);
        if (c.r.chance(1, 8)) std::swap(a, b);
    }
    c.tag("points related to the last ones");
});
VF_REQ("C25", "points related to the last ones", "points with unusual coordinates", "values with unusual coordinates");
VF_CASE("C25", "unknown-logarithms", 120, 0.15, 20, [](Ctx& c) {
    selfcheck();
    P1 P = rndp1(c.r);
    P2 Q = mulg2(rndscalar(c.r));
    c.in(P.xy()), c.in(Q.xy());
    std::string w = "e(" + ps(P) + ", " + ps(Q) + ")";
    c.sample(w);
    F              v = pairing(P, Q);
    s9::sm9_ec_a   pa;
    s9::sm9_ec2_a  qa;
    s9::sm9_fp12_t r;
    G1L::seta(pa, P), G2L::seta(qa, Q);
    s9::sm9_pairing(r, pa, qa);
    pchk(c, "pairing", r, v, w);
    // e(P, Q) e(-P, Q) = 1, order N
    if (!fpow(v, n()).one()) c.fail("order", "pairing value not of order N: %s", w.c_str());
});
VF_CASE("C25", "bilinear", 150, 0.15, 20, [](Ctx& c) {
    // library only: e([a]P,[b]Q) = e(P,Q)^(ab), e(P+R,Q) = e(P,Q) e(R,Q)
    P1 P = rndp1(c.r), R = rndp1(c.r);
    if (add(P, R).inf) R = P;
    P2 Q = mulg2(rndscalar(c.r));
    Z  a = rndscalar(c.r), b = rndscalar(c.r), ab = mulmod(a, b, n());
    c.in(P.xy()), c.in(R.xy()), c.in(Q.xy()), c.in(a.to(32)), c.in(b.to(32));
    c.sample("a = " + a.str() + ", b = " + b.str());
    s9::sm9_ec_a   pa, ra, sa;
    s9::sm9_ec2_a  qa, qb;
    s9::sm9_ec_j   j;
    s9::sm9_ec2_j  j2;
    s9::sm9_fp12_t e, f, g;
    G1L::seta(pa, P), G1L::seta(ra, R), G2L::seta(qa, Q);
    s9::sm9_ec_j_mul_a(j, a.to(32).data(), pa), s9::sm9_ec_j_to_a(sa, j);
    s9::sm9_ec2_j_mul_a(j2, b.to(32).data(), qa), s9::sm9_ec2_j_to_a(qb, j2);
    s9::sm9_pairing(e, sa, qb);
    s9::sm9_pairing(f, pa, qa);
    s9::sm9_fp12_pow(g, f, ab.to(32).data());
    if (!s9::sm9_fp12_equal(e, g)) c.fail("bilinear", "e([a]P,[b]Q) differs from e(P,Q)^(ab): P = %s, Q = %s, a = %s, b = %s", ps(P).c_str(), ps(Q).c_str(), a.str().c_str(), b.str().c_str());
    s9::sm9_ec_j_from_a(j, pa), s9::sm9_ec_j_add_a(j, j, ra), s9::sm9_ec_j_to_a(sa, j);
    s9::sm9_pairing(e, sa, qa);
    s9::sm9_pairing(g, ra, qa);
    s9::sm9_fp12_mul(g, g, f);
    if (!s9::sm9_fp12_equal(e, g)) c.fail("bilinear", "e(P+R,Q) differs from e(P,Q)e(R,Q): P = %s, R = %s, Q = %s", ps(P).c_str(), ps(R).c_str(), ps(Q).c_str());
});
VF_MAIN
