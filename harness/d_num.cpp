// C12 integer arithmetic, C13 Montgomery arithmetic
#include "bn.h"
#include <gmlib/number/internal/mont256_common.h>
#include <gmlib/number/internal/mpz_common.h>
#include <gmlib/number/internal/uint256_common.h>
#include <gmlib/number/mont256.h>
#include <gmlib/number/mpz.h>
#include <gmlib/number/uint256.h>
#if defined(CPU_FLAG_MOVBE) && defined(CPU_FLAG_BMI2)
#define HAVE_X64 1
#endif
using namespace vf;
namespace NC = number::internal::common;

template <class T>
struct L // limb vectors of exact size on the heap
{
    size_t n;
    Buf    b;
    explicit L(size_t n) : n(n), b(n * sizeof(T), 0, 0x77) {}
    L(const Z& z, size_t n) : L(n) { set(z); }
    void set(const Z& z)
    {
        Bytes v = z.to(n * sizeof(T));
        for (size_t i = 0; i < n; i++)
        {
            T x = 0;
            for (size_t k = 0; k < sizeof(T); k++) x = (T)((x << 8) | v[(n - 1 - i) * sizeof(T) + k]);
            p()[i] = x;
        }
    }
    T* p() { return (T*)b.p(); }
    operator T*() { return p(); }
    Z  z()
    {
        Bytes v(n * sizeof(T));
        for (size_t i = 0; i < n; i++)
            for (size_t k = 0; k < sizeof(T); k++) v[(n - 1 - i) * sizeof(T) + k] = (u8)(p()[i] >> (8 * (sizeof(T) - 1 - k)));
        return Z::bytes(v);
    }
    bool ok() { return b.ok(); }
};
static const Z& B256() { static Z z = pow2(256); return z; }
static void same(Ctx& c, const char* key, const Z& got, const Z& exp, const char* op, const Z& a, const Z& b)
{
    c.out(got.to((size_t)(got.bits() + 7) / 8));
    if (got != exp)
        c.fail(key, "%s(%s, %s) = %s, expected %s", op, a.str().c_str(), b.str().c_str(), got.str().c_str(), exp.str().c_str());
}
static void sameint(Ctx& c, const char* key, long long got, long long exp, const char* op, const Z& a, const Z& b)
{
    c.out((u64)got);
    if (got != exp) c.fail(key, "%s(%s, %s) returned %lld, expected %lld", op, a.str().c_str(), b.str().c_str(), got, exp);
}
static int sgn(int x) { return x < 0 ? -1 : x > 0; }

// The two implementations have the same function names in two namespaces.
#define UOPS(NAME, NS, TYPE, LIMBS, W, WNAME)                                                             \
    struct NAME                                                                                           \
    {                                                                                                     \
        typedef TYPE            T;                                                                        \
        static constexpr size_t N = LIMBS;                                                                \
        static const char*      name() { return WNAME; }                                                  \
        static int  add(T* r, const T* a, const T* b) { return NS::uint256_add_carry(r, a, b); }          \
        static int  sub(T* r, const T* a, const T* b) { return NS::uint256_sub_borrow(r, a, b); }         \
        static int  dbl(T* r, const T* a) { return NS::uint256_dbl_carry(r, a); }                         \
        static int  tpl(T* r, const T* a) { return NS::uint256_tpl_carry(r, a); }                         \
        static void mul(T* r, const T* a, const T* b) { NS::uint256_mul(r, a, b); }                       \
        static void sqr(T* r, const T* a) { NS::uint256_sqr(r, a); }                                      \
        static int  addw(T* r, const T* a, T w) { return NS::uint256_add_carry_##W(r, a, w); }            \
        static int  subw(T* r, const T* a, T w) { return NS::uint256_sub_borrow_##W(r, a, w); }           \
        static T    mulw(T* r, const T* a, T w) { return NS::uint256_mul_carry_##W(r, a, w); }            \
        static T    divw(T* r, const T* a, T w) { return NS::uint256_div_##W(r, a, w); }                  \
        static void madd(T* r, const T* a, const T* b, const T* m) { NS::uint256_mod_add(r, a, b, m); }   \
        static void msub(T* r, const T* a, const T* b, const T* m) { NS::uint256_mod_sub(r, a, b, m); }   \
        static void mod(T* r, const u8* d, size_t n, const T* m) { NS::uint256_mod(r, d, n, m); }         \
        static int  cmp(const T* a, const T* b) { return NS::uint256_cmp(a, b); }                         \
        static int  cmpw(const T* a, T w) { return NS::uint256_cmp_##W(a, w); }                           \
        static bool eq(const T* a, const T* b) { return NS::uint256_equal(a, b); }                        \
        static bool is0(const T* a) { return NS::uint256_equal_zero(a); }                                 \
        static bool is1(const T* a) { return NS::uint256_equal_one(a); }                                  \
        static void cpy(T* r, const T* a) { NS::uint256_cpy(r, a); }                                      \
        static void set0(T* r) { NS::uint256_set_zero(r); }                                               \
        static void set1(T* r) { NS::uint256_set_one(r); }                                                \
        static void setw(T* r, T w) { NS::uint256_set_##W(r, w); }                                        \
        static void from(T* r, const u8* p) { NS::uint256_from_bytes(r, p); }                             \
        static void to(u8* p, const T* a) { NS::uint256_to_bytes(p, a); }                                 \
        static bool bit(const T* a, int i) { return NS::uint256_bittest(a, i); }                          \
        static int  zadd(T* r, const T* a, const T* b, int k, size_t n) { return NS::mpz_add_carry(r, a, b, k, n); }  \
        static int  zsub(T* r, const T* a, const T* b, int k, size_t n) { return NS::mpz_sub_borrow(r, a, b, k, n); } \
        static void zmul(T* r, const T* a, const T* b, size_t n) { NS::mpz_mul(r, a, b, n); }             \
        static int  zcmp(const T* a, const T* b, size_t n) { return NS::mpz_cmp(a, b, n); }               \
        static void zcpy(T* r, const T* a, size_t n) { NS::mpz_cpy(r, a, n); }                            \
        static void zfrom(T* r, const u8* a, size_t n) { NS::mpz_from_bytes(r, a, n); }                   \
        static void zto(u8* r, const T* a, size_t n) { NS::mpz_to_bytes(r, a, n); }                       \
        typedef NS::Mont256CTX M;                                                                         \
        static T    n_(T p0) { return NS::mont_compute_N_(p0); }                                          \
        static void Madd(const M* m, T* r, const T* a, const T* b) { NS::mont256_add(m, r, a, b); }       \
        static void Msub(const M* m, T* r, const T* a, const T* b) { NS::mont256_sub(m, r, a, b); }       \
        static void Mdbl(const M* m, T* r, const T* a) { NS::mont256_dbl(m, r, a); }                      \
        static void Mtpl(const M* m, T* r, const T* a) { NS::mont256_tpl(m, r, a); }                      \
        static void Mneg(const M* m, T* r, const T* a) { NS::mont256_neg(m, r, a); }                      \
        static void Mmul(const M* m, T* r, const T* a, const T* b) { NS::mont256_mul(m, r, a, b); }       \
        static void Msqr(const M* m, T* r, const T* a) { NS::mont256_sqr(m, r, a); }                      \
        static void Mhlf(const M* m, T* r, const T* a) { NS::mont256_div2(m, r, a); }                     \
        static void Mpow(const M* m, T* r, const T* a, const T* e) { NS::mont256_pow(m, r, a, e); }       \
        static void Minv(const M* m, T* r, const T* a) { NS::mont256_inv(m, r, a); }                      \
        static bool Meq(const M* m, const T* a, const T* b) { return NS::mont256_equal(m, a, b); }        \
        static bool Mis0(const M* m, const T* a) { return NS::mont256_equal_zero(m, a); }                 \
        static bool Mis1(const M* m, const T* a) { return NS::mont256_equal_one(m, a); }                  \
        static void Mcpy(const M* m, T* r, const T* a) { NS::mont256_cpy(m, r, a); }                      \
        static void Mset0(const M* m, T* r) { NS::mont256_set_zero(m, r); }                               \
        static void Mset1(const M* m, T* r) { NS::mont256_set_one(m, r); }                                \
        static void Msetw(const M* m, T* r, T w) { NS::mont256_set_##W(m, r, w); }                        \
        static void Mfrom(const M* m, T* r, const u8* p) { NS::mont256_from_bytes(m, r, p); }             \
        static void Mto(const M* m, u8* p, const T* a) { NS::mont256_to_bytes(m, p, a); }                 \
        static void Mfromx(const M* m, T* r, const u8* p, size_t n) { NS::mont256_from_bytes_ex(m, r, p, n); } \
    };
UOPS(Common, NC, u32, 8, uint32, "32-bit limbs")
#ifdef HAVE_X64
namespace NX = number::internal::x64;
UOPS(X64, NX, std::uint64_t, 4, uint64, "64-bit limbs")
#endif

static std::vector<Z>& moduli()
{
    static std::vector<Z> v = {
        Z::hex("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF"),
        Z::hex("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123"),
        Z::hex("B640000002A3A6F1D603AB4FF58EC74521F2934B1A7AEEDBE56F9B27E351457D"),
        Z::hex("B640000002A3A6F1D603AB4FF58EC74449F2934B18EA8BEEE56EE19CD69ECF25")};
    return v;
}
static Z other(Ctx& c, const Z& a)
{ // a second operand related to the first
    switch (c.r.below(6))
    {
    case 0: return a;
    case 1: return (B256() - a) % B256();
    case 2: return (B256() - Z(1) - a);
    case 3: return (a + Z(1)) % B256();
    default: return rnd256(c.r);
    }
}
template <class O>
static void ints(Ctx& c, const Z& a, const Z& b, u64 w64)
{
    typedef typename O::T T;
    const size_t          N = O::N;
    T                     w = (T)w64;
    Z                     wz((u64)w);
    const Z               TB = pow2(8 * sizeof(T));
    L<T>                  x(a, N), y(b, N), r(N), d(2 * N);
    std::string           nm = O::name();
    c.tag(nm);
    Z s = a + b;
    if (s >= B256()) c.tag("carry out");
    if (a < b) c.tag("borrow out");
    // out of place, in place over the first, over the second, both the same
    for (int al = 0; al < 4; al++)
    {
        L<T> u(a, N), v(b, N);
        T *  o = al == 0 ? r.p() : al == 1 ? u.p() : al == 2 ? v.p() : u.p(), *q = al == 3 ? u.p() : v.p();
        const Z& bb = al == 3 ? a : b;
        L<T>*    ol = al == 0 ? &r : al == 2 ? &v : &u;
        int      k  = O::add(o, u, q);
        sameint(c, "add-carry", k, (a + bb) >= B256(), "add", a, bb);
        same(c, "add", ol->z(), (a + bb) % B256(), "add", a, bb);
        u.set(a), v.set(b);
        k = O::sub(o, u, q);
        sameint(c, "sub-borrow", k, a < bb ? -1 : 0, "sub", a, bb);
        same(c, "sub", ol->z(), (a - bb) % B256(), "sub", a, bb);
    }
    for (int al = 0; al < 2; al++)
    {
        L<T>  u(a, N);
        L<T>* ol = al ? &u : &r;
        int   k  = O::dbl(*ol, u);
        sameint(c, "dbl-carry", k, (a + a) >= B256(), "dbl", a, b);
        same(c, "dbl", ol->z(), (a + a) % B256(), "dbl", a, b);
        u.set(a);
        Z t = a + a + a;
        k   = O::tpl(*ol, u);
        sameint(c, "tpl-carry", k, (t >= B256()) + (t >= B256() + B256()), "tpl", a, b);
        same(c, "tpl", ol->z(), t % B256(), "tpl", a, b);
        u.set(a);
        k = O::addw(*ol, u, w);
        sameint(c, "addw-carry", k, (a + wz) >= B256(), "add word", a, wz);
        same(c, "addw", ol->z(), (a + wz) % B256(), "add word", a, wz);
        u.set(a);
        k = O::subw(*ol, u, w);
        sameint(c, "subw-borrow", k, a < wz ? -1 : 0, "sub word", a, wz);
        same(c, "subw", ol->z(), (a - wz) % B256(), "sub word", a, wz);
        u.set(a);
        Z p  = a * wz;
        T hi = O::mulw(*ol, u, w);
        same(c, "mulw-carry", Z((u64)hi), p / B256(), "mul word carry", a, wz);
        same(c, "mulw", ol->z(), p % B256(), "mul word", a, wz);
        u.set(a);
        if (w)
        {
            T rem = O::divw(*ol, u, w);
            same(c, "divw-rem", Z((u64)rem), a % wz, "div word remainder", a, wz);
            same(c, "divw", ol->z(), a / wz, "div word", a, wz);
        }
        u.set(a);
        O::cpy(*ol, u);
        same(c, "cpy", ol->z(), a, "copy", a, b);
    }
    O::mul(d, x, y);
    same(c, "mul", d.z(), a * b, "mul", a, b);
    O::mul(d, x, x);
    same(c, "mul", d.z(), a * a, "mul (same operand)", a, a);
    O::sqr(d, x);
    same(c, "sqr", d.z(), a * a, "sqr", a, a);
    same(c, "operand", x.z(), a, "operand changed", a, b);
    // comparisons
    sameint(c, "cmp", sgn(O::cmp(x, y)), a < b ? -1 : a > b, "cmp", a, b);
    sameint(c, "cmp", sgn(O::cmp(y, x)), b < a ? -1 : b > a, "cmp", b, a);
    sameint(c, "cmp", O::cmp(x, x), 0, "cmp", a, a);
    sameint(c, "cmpw", sgn(O::cmpw(x, w)), a < wz ? -1 : a > wz, "cmp word", a, wz);
    L<T> wl(wz, N);
    sameint(c, "cmpw", sgn(O::cmpw(wl, w)), 0, "cmp word", wz, wz);
    sameint(c, "equal", O::eq(x, y), a == b, "equal", a, b);
    sameint(c, "equal", O::eq(x, x), 1, "equal", a, a);
    sameint(c, "is-zero", O::is0(x), a.zero(), "equal_zero", a, b);
    sameint(c, "is-one", O::is1(x), a.one(), "equal_one", a, b);
    {
        // one-bit differences
        int  i = (int)c.r.below(256);
        Z    f = a.bit(i) ? a - pow2(i) : a + pow2(i);
        L<T> fl(f, N);
        sameint(c, "equal", O::eq(x, fl), 0, "equal", a, f);
        sameint(c, "cmp", sgn(O::cmp(x, fl)), a < f ? -1 : 1, "cmp", a, f);
        L<T> one(pow2(i), N);
        sameint(c, "is-zero", O::is0(one), 0, "equal_zero", pow2(i), f);
        sameint(c, "is-one", O::is1(one), i == 0, "equal_one", pow2(i), f);
    }
    O::set0(r), same(c, "set", r.z(), Z(0), "set_zero", a, b);
    O::set1(r), same(c, "set", r.z(), Z(1), "set_one", a, b);
    O::setw(r, w), same(c, "set", r.z(), wz, "set word", wz, b);
    for (int i = 0; i < 256; i += 1 + (int)c.r.below(9)) sameint(c, "bittest", O::bit(x, i), a.bit(i), "bit", a, Z((u64)i));
    sameint(c, "bittest", O::bit(x, 255), a.bit(255), "bit 255", a, b);
    // conversion at any alignment
    Buf by(a.to(32), c.r.below(17)), bo(32, c.r.below(17));
    O::from(r, by);
    same(c, "from-bytes", r.z(), a, "from_bytes", a, b);
    O::to(bo, x);
    c.eq("to-bytes", bo.bytes(), a.to(32), "to_bytes");
    if (!bo.ok() || !by.ok() || !r.ok() || !d.ok()) c.fail("overwrite", "integer routine wrote outside its result");
    // modular, every modulus >= 2^255 that is odd or even
    Z m = c.r.chance(1, 2) ? moduli()[c.r.below(4)] : (rnd256(c.r) % pow2(255)) + pow2(255);
    Z am = a % m, bm = c.r.chance(1, 4) ? (m - am) % m : b % m;
    L<T> ml(m, N);
    for (int al = 0; al < 4; al++)
    {
        L<T> u(am, N), v(bm, N);
        T *  o = al == 0 ? r.p() : al == 2 ? v.p() : u.p(), *q = al == 3 ? u.p() : v.p();
        const Z& bb = al == 3 ? am : bm;
        L<T>*    ol = al == 0 ? &r : al == 2 ? &v : &u;
        O::madd(o, u, q, ml);
        same(c, "mod-add", ol->z(), (am + bb) % m, ("mod_add modulo " + m.str()).c_str(), am, bb);
        u.set(am), v.set(bm);
        O::msub(o, u, q, ml);
        same(c, "mod-sub", ol->z(), (am - bb) % m, ("mod_sub modulo " + m.str()).c_str(), am, bb);
    }
}
template <class O>
static void modbytes(Ctx& c, const Bytes& d, const Z& m)
{
    typedef typename O::T T;
    L<T>                  r(O::N), ml(m, O::N);
    Buf                   b(d, c.r.below(9));
    O::mod(r, b, d.size(), ml);
    same(c, "mod-bytes", r.z(), Z::bytes(d) % m, fmt("mod of %zu bytes", d.size()).c_str(), Z::bytes(d.data(), std::min<size_t>(64, d.size())), m);
}
template <class O>
static void mpz(Ctx& c, size_t bytes8, const Z& a, const Z& b, bool cin)
{
    typedef typename O::T T;
    size_t                n  = bytes8 * 8 / sizeof(T);
    Z                     MB = pow2((int)(bytes8 * 64));
    L<T>                  x(a, n), y(b, n), r(n), d(2 * n);
    if (!n)
    {
        sameint(c, "mpz-empty", O::zadd(r, x, y, 0, 0), 0, "mpz_add", a, b);
        sameint(c, "mpz-empty", O::zsub(r, x, y, 0, 0), 0, "mpz_sub", a, b);
        sameint(c, "mpz-empty", O::zcmp(x, y, 0), 0, "mpz_cmp", a, b);
        return;
    }
    for (int al = 0; al < 3; al++)
    {
        L<T>  u(a, n), v(b, n);
        L<T>* o = al == 0 ? &r : al == 1 ? &u : &v;
        int   k = O::zadd(*o, u, v, cin, n);
        Z     s = a + b + Z(cin);
        sameint(c, "mpz-add-carry", k, s >= MB, "mpz_add", a, b);
        same(c, "mpz-add", o->z() % pow2(512), s % MB % pow2(512), "mpz_add", a, b);
        same(c, "mpz-add", o->z() >> 256 >> 256, s % MB >> 512, "mpz_add (high)", a, b);
        u.set(a), v.set(b);
        k   = O::zsub(*o, u, v, cin ? -1 : 0, n);
        Z t = b + Z(cin);
        sameint(c, "mpz-sub-borrow", k, a < t ? -1 : 0, "mpz_sub", a, b);
        if (o->z() != (a - t) % MB) c.fail("mpz-sub", "mpz_sub(%s, %s, %d)", a.str().c_str(), b.str().c_str(), cin);
    }
    O::zmul(d, x, y, n);
    if (d.z() != a * b) c.fail("mpz-mul", "mpz_mul(%s, %s) = %s", a.str().c_str(), b.str().c_str(), d.z().str().c_str());
    sameint(c, "mpz-cmp", sgn(O::zcmp(x, y, n)), a < b ? -1 : a > b, "mpz_cmp", a, b);
    sameint(c, "mpz-cmp", sgn(O::zcmp(y, x, n)), b < a ? -1 : b > a, "mpz_cmp", b, a);
    sameint(c, "mpz-cmp", O::zcmp(x, x, n), 0, "mpz_cmp", a, a);
    O::zcpy(r, x, n);
    if (r.z() != a) c.fail("mpz-cpy", "mpz_cpy");
    Buf bi(a.to(bytes8 * 8), c.r.below(9)), bo(bytes8 * 8, c.r.below(9));
    O::zfrom(r, bi, n);
    if (r.z() != a) c.fail("mpz-from", "mpz_from_bytes of %s", a.str().c_str());
    O::zto(bo, x, n);
    c.eq("mpz-to", bo.bytes(), a.to(bytes8 * 8), "mpz_to_bytes");
    if (!r.ok() || !d.ok() || !bo.ok()) c.fail("overwrite", "mpz routine wrote outside its result");
}
template <class F>
static void both(F f)
{
    f((Common*)nullptr);
#ifdef HAVE_X64
    f((X64*)nullptr);
#endif
}
static u64 word(Ctx& c)
{
    switch (c.r.below(6))
    {
    case 0: return c.r.below(4);
    case 1: return ~(u64)c.r.below(4);
    case 2: return (u64)1 << c.r.below(64);
    case 3: return ((u64)1 << 32) - 1 + c.r.below(3);
    default: return c.r.next();
    }
}
VF_CASE("C12", "uint256", 40000, 0.15, 15, [](Ctx& c) {
    Z   a = rnd256(c.r), b = other(c, a);
    u64 w = word(c);
    c.in(a.to(32)), c.in(b.to(32)), c.in(w);
    c.sample("a = " + a.str() + ", b = " + b.str());
    // the same random decisions for both widths
    Rnd s = c.r;
    both([&](auto* o) { c.r = s; ints<std::remove_pointer_t<decltype(o)>>(c, a, b, w); });
});
VF_CASE("C12", "mod-bytes", 12000, 0.15, 15, [](Ctx& c) {
    Z      m = c.r.chance(2, 3) ? moduli()[c.r.below(4)] : (rnd256(c.r) % pow2(252)) + pow2(252);
    Bytes  d = c.r.ebytes(c.idx < 140 ? c.idx : c.r.below(140));
    if (c.r.chance(1, 3) && d.size() >= 32)
    { // first block right at the modulus
        Bytes v = (m + Z(c.r.below(3)) - Z(1)).to(32);
        std::memcpy(d.data(), v.data(), 32);
    }
    c.in(d), c.in(m.to(32));
    if (d.size() % 32 == 0) c.tag("whole 32-byte blocks");
    if (d.size() > 64 && d.size() % 32) c.tag("partial last block");
    Rnd s = c.r;
    both([&](auto* o) { c.r = s; modbytes<std::remove_pointer_t<decltype(o)>>(c, d, m); });
});
VF_CASE("C12", "mpz", 16000, 0.15, 15, [](Ctx& c) {
    size_t k = c.idx < 12 ? c.idx : 1 + c.r.below(c.r.chance(1, 10) ? 20 : 6);
    Z      a = Z::bytes(c.r.ebytes(8 * k)), b = Z::bytes(c.r.ebytes(8 * k)), MB = pow2((int)(64 * k));
    if (c.r.chance(1, 3)) b = c.r.chance(1, 2) ? (MB - Z(1) - a) : (MB - a) % MB;
    if (k && c.r.chance(1, 5)) { int i = (int)c.r.below(64 * k); b = a.bit(i) ? a - pow2(i) : a + pow2(i); c.tag("operands one bit apart"); }
    bool cin = c.r.below(2);
    c.in(a.to(8 * k)), c.in(b.to(8 * k)), c.in(cin);
    Rnd s = c.r;
    both([&](auto* o) { c.r = s; mpz<std::remove_pointer_t<decltype(o)>>(c, k, a, b, cin); });
    constexpr auto v = NC::mpz_set_epi8(0x01, 0x23, 0x45, 0x67, 0x89, 0xab, 0xcd, 0xef);
    if (v.v[0] != 0x89abcdef || v.v[1] != 0x01234567) c.fail("mpz-literal", "mpz_set_epi8");
});

// ---------------------------------------------------------------- C13
template <class O>
struct MontCtx
{
    typedef typename O::T T;
    L<T>                  p, p2, r, r2;
    typename O::M         m;
    MontCtx(const Z& P) : p(P, O::N), p2(P - Z(2), O::N), r(pow2(256) % P, O::N), r2(pow2(512) % P, O::N)
    {
        m.P = p, m.P_SUB2 = p2, m.R = r, m.R_POW2 = r2;
        m.N_ = O::n_(p.p()[0]);
    }
};
template <class O>
static MontCtx<O>& mctx(size_t i)
{
    static std::vector<MontCtx<O>*> v;
    if (v.empty())
        for (auto& p : moduli()) v.push_back(new MontCtx<O>(p));
    return *v[i];
}
template <class O>
static void mont(Ctx& c, size_t mi, const Z& a, const Z& b, const Z& e, const Bytes& any, u64 w64)
{
    typedef typename O::T T;
    const Z&              P = moduli()[mi];
    static std::vector<Z> Ri;
    if (Ri.empty())
        for (auto& p : moduli()) Ri.push_back(invmod(pow2(256) % p, p));
    Z             R  = pow2(256) % P;
    MontCtx<O>&   k  = mctx<O>(mi);
    auto          am = mulmod(a, R, P), bm = mulmod(b, R, P);
    const size_t  N = O::N;
    L<T>          r(N);
    c.tag(std::string(O::name()) + fmt(" modulus %zu", mi));
    // N': N' * p = -1 modulo the limb base
    if ((T)(k.m.N_ * k.p.p()[0]) != (T)-1) c.fail("n-prime", "mont_compute_N_ of limb %llx", (unsigned long long)k.p.p()[0]);
    auto chk = [&](const char* key, L<T>& o, const Z& val, const char* op) {
        Z g = o.z();
        c.out(g.to(32));
        if (g >= P) { c.fail((std::string(key) + "-unreduced").c_str(), "%s(%s, %s) not reduced: %s (modulus %zu, %s)", op, a.str().c_str(), b.str().c_str(), g.str().c_str(), mi, O::name()); return; }
        if (mulmod(g, Ri[mi], P) != val) c.fail(key, "%s(%s, %s): represents %s, expected %s (modulus %zu, %s)", op, a.str().c_str(), b.str().c_str(), mulmod(g, Ri[mi], P).str().c_str(), val.str().c_str(), mi, O::name());
        if (!o.ok()) c.fail("overwrite", "%s wrote outside its result", op);
    };
    for (int al = 0; al < 4; al++)
    { // aliasing
        const Z& bb = al == 3 ? a : b;
        auto     bin = [&](const char* key, auto f, const Z& val, const char* op) {
            L<T>  u(am, N), v(bm, N);
            L<T>* o = al == 0 ? &r : al == 2 ? &v : &u;
            f(&k.m, o->p(), u.p(), al == 3 ? u.p() : v.p());
            chk(key, *o, val, op);
        };
        bin("add", O::Madd, (a + bb) % P, "add");
        bin("sub", O::Msub, (a - bb) % P, "sub");
        bin("mul", O::Mmul, mulmod(a, bb, P), "mul");
    }
    Z i2 = (P + Z(1)) >> 1;
    for (int al = 0; al < 2; al++)
    {
        auto un = [&](const char* key, auto f, const Z& val, const char* op) {
            L<T>  u(am, N);
            L<T>* o = al ? &u : &r;
            f(&k.m, o->p(), u.p());
            chk(key, *o, val, op);
        };
        un("dbl", O::Mdbl, (a + a) % P, "dbl");
        un("tpl", O::Mtpl, (a + a + a) % P, "tpl");
        un("neg", O::Mneg, (P - a) % P, "neg");
        un("sqr", O::Msqr, mulmod(a, a, P), "sqr");
        un("div2", O::Mhlf, mulmod(a, i2, P), "div2");
        un("cpy", O::Mcpy, a, "cpy");
        if (!a.zero()) un("inv", O::Minv, invmod(a, P), "inv");
        L<T> u(am, N), el(e, N);
        L<T>* o = al ? &u : &r;
        if (!(a.zero() && e.zero()))
        {
            O::Mpow(&k.m, *o, u, el);
            chk("pow", *o, powmod(a, e, P), ("pow with exponent " + e.str()).c_str());
            if (e.zero()) c.tag("zero exponent");
        }
    }
    L<T> x(am, N), y(bm, N), z0(Z(0), N);
    sameint(c, "equal", O::Meq(&k.m, x, y), a == b, "mont equal", a, b);
    L<T> x2(am, N);
    sameint(c, "equal", O::Meq(&k.m, x, x2), 1, "mont equal", a, a);
    sameint(c, "is-zero", O::Mis0(&k.m, x), a.zero(), "mont equal_zero", a, b);
    sameint(c, "is-one", O::Mis1(&k.m, x), a.one(), "mont equal_one", a, b);
    O::Mset0(&k.m, r), chk("set", r, Z(0), "set_zero");
    O::Mset1(&k.m, r), chk("set", r, Z(1), "set_one");
    T w = (T)w64;
    O::Msetw(&k.m, r, w), chk("set-word", r, Z((u64)w) % P, "set word");
    Buf bi(a.to(32), c.r.below(9)), bo(32, c.r.below(9));
    O::Mfrom(&k.m, r, bi), chk("from-bytes", r, a, "from_bytes");
    O::Mto(&k.m, bo, x);
    c.eq("to-bytes", bo.bytes(), a.to(32), "mont to_bytes");
    // any 32 bytes, any length
    Bytes a32 = any;
    a32.resize(32, 0xff);
    Buf bj(a32, c.r.below(9)), bx(any, c.r.below(9));
    O::Mfrom(&k.m, r, bj), chk("from-unreduced", r, Z::bytes(a32) % P, "from_bytes of an unreduced value");
    if (Z::bytes(a32) >= P) c.tag("unreduced input");
    O::Mfromx(&k.m, r, bx, any.size()), chk("from-bytes-ex", r, Z::bytes(any) % P, fmt("from_bytes_ex of %zu bytes", any.size()).c_str());
    if (!bo.ok()) c.fail("overwrite", "to_bytes wrote outside 32 bytes");
}
VF_CASE("C13", "mont", 6000, 0.15, 20, [](Ctx& c) {
    size_t mi = c.idx % 4;
    const Z& P = moduli()[mi];
    Z a = rndmod(c.r, P), b;
    switch (c.r.below(5))
    {
    case 0: b = a; break;
    case 1: b = (P - a) % P; break;
    case 2: b = (P - a + Z(1)) % P; break;
    default: b = rndmod(c.r, P);
    }
    Z e;
    switch (c.r.below(7))
    {
    case 0: e = Z(c.r.below(20)); break;
    case 1: e = P - Z(c.r.below(4)); break;
    case 2: e = pow2((int)c.r.below(256)); break;
    case 3: e = Z((u64)1 + c.r.below(15)) << (int)(4 * c.r.below(64)); break;
    default: e = rnd256(c.r);
    }
    Bytes any = c.r.ebytes(c.r.below(100));
    if (c.r.chance(1, 3)) any = c.r.chance(1, 2) ? (P + Z(c.r.below(3))).to(32) : Bytes(32, 0xff);
    u64 w = word(c);
    c.in(a.to(32)), c.in(b.to(32)), c.in(e.to(32)), c.in(any), c.in(mi);
    if (a.zero()) c.tag("operand zero");
    if (a == P - Z(1)) c.tag("operand p-1");
    c.sample("a = " + a.str() + ", b = " + b.str() + ", e = " + e.str());
    Rnd s = c.r;
    both([&](auto* o) { c.r = s; mont<std::remove_pointer_t<decltype(o)>>(c, mi, a, b, e, any, w); });
});
VF_REQ("C12", "carry out", "borrow out", "32-bit limbs", "64-bit limbs", "partial last block", "operands one bit apart");
VF_REQ("C13", "zero exponent", "unreduced input", "operand zero", "operand p-1", "32-bit limbs modulus 0", "64-bit limbs modulus 3");
VF_MAIN
