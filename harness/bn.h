// Small value type over OpenSSL's BIGNUM (the arithmetic reference).
#pragma once
#include "ossl.h"
#include <utility>
struct Z
{
    BIGNUM* b;
    static BN_CTX* ctx()
    {
        static thread_local BN_CTX* c = BN_CTX_new();
        return c;
    }
    Z() : b(BN_new()) {}
    Z(vf::u64 v) : b(BN_new()) { BN_set_word(b, v); }
    Z(const Z& o) : b(BN_dup(o.b)) {}
    Z(Z&& o) noexcept : b(o.b) { o.b = nullptr; }
    Z& operator=(Z o) { std::swap(b, o.b); return *this; }
    ~Z() { BN_free(b); }
    static Z hex(const char* s) { Z z; BN_hex2bn(&z.b, s); return z; }
    static Z bytes(const void* p, size_t n) { Z z; BN_bin2bn((const unsigned char*)p, (int)n, z.b); return z; }
    static Z bytes(const vf::Bytes& v) { return bytes(v.data(), v.size()); }
    vf::Bytes to(size_t n) const
    {
        vf::Bytes r(n);
        if (BN_bn2binpad(b, r.data(), (int)n) != (int)n) ossl::die("bn2binpad");
        return r;
    }
    std::string str() const { char* s = BN_bn2hex(b); std::string r(s); OPENSSL_free(s); return r; }
    bool odd() const { return BN_is_odd(b); }
    bool zero() const { return BN_is_zero(b); }
    bool one() const { return BN_is_one(b); }
    bool bit(int i) const { return BN_is_bit_set(b, i); }
    int  bits() const { return BN_num_bits(b); }
    friend Z operator+(const Z& x, const Z& y) { Z r; BN_add(r.b, x.b, y.b); return r; }
    friend Z operator-(const Z& x, const Z& y) { Z r; BN_sub(r.b, x.b, y.b); return r; }
    friend Z operator*(const Z& x, const Z& y) { Z r; BN_mul(r.b, x.b, y.b, ctx()); return r; }
    friend Z operator/(const Z& x, const Z& y) { Z r; BN_div(r.b, nullptr, x.b, y.b, ctx()); return r; }
    friend Z operator%(const Z& x, const Z& m) { Z r; BN_nnmod(r.b, x.b, m.b, ctx()); return r; }
    friend Z operator<<(const Z& x, int n) { Z r; BN_lshift(r.b, x.b, n); return r; }
    friend Z operator>>(const Z& x, int n) { Z r; BN_rshift(r.b, x.b, n); return r; }
    friend bool operator==(const Z& x, const Z& y) { return BN_cmp(x.b, y.b) == 0; }
    friend bool operator!=(const Z& x, const Z& y) { return BN_cmp(x.b, y.b) != 0; }
    friend bool operator<(const Z& x, const Z& y) { return BN_cmp(x.b, y.b) < 0; }
    friend bool operator<=(const Z& x, const Z& y) { return BN_cmp(x.b, y.b) <= 0; }
    friend bool operator>(const Z& x, const Z& y) { return BN_cmp(x.b, y.b) > 0; }
    friend bool operator>=(const Z& x, const Z& y) { return BN_cmp(x.b, y.b) >= 0; }
};
inline Z mulmod(const Z& a, const Z& b, const Z& m) { Z r; BN_mod_mul(r.b, a.b, b.b, m.b, Z::ctx()); return r; }
inline Z powmod(const Z& a, const Z& e, const Z& m) { Z r; BN_mod_exp(r.b, a.b, e.b, m.b, Z::ctx()); return r; }
inline Z invmod(const Z& a, const Z& m)
{
    Z r;
    if (!BN_mod_inverse(r.b, a.b, m.b, Z::ctx())) BN_zero(r.b);
    return r;
}
inline Z pow2(int n) { return Z(1) << n; }
// edge-biased 256-bit value
inline Z rnd256(vf::Rnd& r)
{
    switch (r.below(5))
    {
    case 0: return Z(r.below(20));
    case 1: return pow2(256) - Z(1 + r.below(20));
    case 2:
    {
        Z z = pow2((int)r.below(256));
        if (r.below(2)) z = z - Z(1);
        return z;
    }
    default: return Z::bytes(r.ebytes(32));
    }
}
// edge-biased residue modulo m (256 bits)
inline Z rndmod(vf::Rnd& r, const Z& m)
{
    switch (r.below(9))
    {
    case 6: return mulmod(Z::bytes(r.ebytes(32)) % m, invmod(pow2(256) % m, m), m); // unusual words in Montgomery form
    case 0: return Z(r.below(6));
    case 1: return m - Z(1 + r.below(6));
    case 2: return (m >> 1) + Z(r.below(3));
    case 3: return rnd256(r) % m;
    case 4: return mulmod(Z(r.below(5)), invmod(pow2(256) % m, m), m); // small in Montgomery form
    case 5: return mulmod(m - Z(1 + r.below(5)), invmod(pow2(256) % m, m), m);
    default: return Z::bytes(r.bytes(32)) % m;
    }
}
