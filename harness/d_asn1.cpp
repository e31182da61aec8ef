// ASN.1/DER encoders and decoders, SM2 DER structures, dump routines.
#include <cerrno>
#include <csetjmp>
#include "vf.h"
#include <memory>
#include <gmlib/asn1/asn1.h>
#include <gmlib/asn1/asn1_dump.h>
#include <gmlib/memory_utils/memdump.h>
#include <gmlib/sm2/internal/sm2_asn1.h>
using namespace vf;
using namespace asn1;
namespace si = sm2::internal;

// ---------------------------------------------------------------- reference
static void put_len(Bytes& o, u64 l)
{
    if (l < 0x80) { o.push_back((u8)l); return; }
    int n = 0;
    for (u64 t = l; t; t >>= 8) n++;
    o.push_back((u8)(0x80 | n));
    for (int i = n - 1; i >= 0; i--) o.push_back((u8)(l >> (8 * i)));
}
static Bytes tl(u8 tag, u64 l) { Bytes o{tag}; put_len(o, l); return o; }
static Bytes operator+(Bytes a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static Bytes der(u8 tag, const Bytes& v) { return tl(tag, v.size()) + v; }
static Bytes strip(const Bytes& m)
{
    size_t i = 0;
    while (i + 1 < m.size() && m[i] == 0) i++;
    return Bytes(m.begin() + i, m.end());
}
static Bytes der_int(const Bytes& mag)
{
    Bytes v = strip(mag);
    if (v[0] & 0x80) v.insert(v.begin(), 0);
    return der(2, v);
}
struct Tlv
{
    u8     tag;
    size_t head, len;
    bool   minimal; // minimal length octets
};
enum Verdict { OK, BAD, UNSPEC };
static Verdict parse(Tlv& t, const u8* p, size_t n)
{
    if (n == 0) return BAD;
    t.tag = p[0];
    if ((p[0] & 0x1f) == 0x1f) return BAD; // unsupported is an error too
    if (n < 2) return BAD;
    if (p[1] < 0x80) t.head = 2, t.len = p[1], t.minimal = true;
    else
    {
        size_t k = p[1] & 0x7f;
        if (k == 0) return BAD;
        if (n < 2 + k) return BAD;
        u64  v    = 0;
        bool over = false;
        for (size_t i = 0; i < k; i++)
        {
            if (v >> 56) over = true;
            v = v << 8 | p[2 + i];
        }
        if (over) return BAD;
        t.head = 2 + k, t.len = v;
        t.minimal = tl(0, v).size() == t.head;
        if (k > 8) return t.len <= n - t.head ? UNSPEC : BAD;
    }
    return t.len <= n - t.head ? OK : BAD;
}

// ---------------------------------------------------------------- C20
static size_t gen_len(Rnd& r, size_t max)
{
    static const size_t edge[] = {0, 1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 65534, 65535, 65536, 65537};
    size_t l;
    switch (r.below(4))
    {
    case 0: l = edge[r.below(15)]; break;
    case 1: l = r.below(300); break;
    default: l = r.below(40);
    }
    return l > max ? l % max : l;
}
struct Enc
{ // an encoder writing into a buffer of exactly the announced size
    Ctx&  c;
    Bytes exp;
    Bytes trail;
    const char* what;
    template <class F>
    bool run(size_t announced, size_t maxl, F f)
    {
        if (announced != exp.size())
        {
            c.fail("announced-size", "%s: announced %zu bytes, encoding has %zu: %s", what, announced, exp.size(), hex(exp).substr(0, 80).c_str());
            return false;
        }
        if (maxl < exp.size()) c.fail("announced-maximum", "%s: maximum %zu below the %zu needed", what, maxl, exp.size());
        Buf    b(exp.size(), c.r.below(8));
        size_t l = 0x5555;
        f(b.p(), &l);
        c.out(b.p(), exp.size());
        if (!b.ok()) c.fail("encode-overrun", "%s: wrote outside %zu bytes, expected %s", what, exp.size(), hex(exp).substr(0, 80).c_str());
        if (l != exp.size()) { c.fail("encode-length", "%s: reported %zu bytes, expected %zu", what, l, exp.size()); return false; }
        return c.eq("encode-bytes", b.p(), exp.data(), exp.size(), what);
    }
};
static void integer_case(Ctx& c, const Bytes& mag)
{
    Bytes exp = der_int(mag), trail = c.r.ebytes(c.r.below(6));
    c.in(mag);
    if (mag[0] == 0) c.tag("integer with leading zero byte");
    if (strip(mag)[0] & 0x80) c.tag("integer with top bit set");
    c.sample("integer " + hex(mag).substr(0, 70));
    Enc  e{c, exp, trail, "integer"};
    Buf  d(mag, c.r.below(8));
    size_t ann = asn1_encode_integer_outl(d.p(), mag.size());
    e.run(ann, ASN1_ENCODE_INTEGER_MAX_OUTL(mag.size()), [&](u8* o, size_t* l) { asn1_encode_integer_tlv(o, l, d.p(), mag.size()); });
    // decode the reference encoding
    Buf         in(exp + trail, c.r.below(8));
    const u8*   v = nullptr;
    size_t      vl = 0, rn = 0;
    int         err = asn1_decode_integer_value(&v, &vl, &rn, in.p(), in.size());
    if (err) { c.fail("decode-error", "integer %s refused with %d", hex(exp).substr(0, 80).c_str(), err); return; }
    if (rn != exp.size()) c.fail("decode-consumed", "integer %s: consumed %zu of %zu", hex(exp).substr(0, 80).c_str(), rn, exp.size());
    Bytes m = strip(mag);
    c.out((u64)vl);
    if (v < in.p() || vl > exp.size() || v + vl > in.p() + exp.size()) { c.fail("decode-outside", "integer value outside the input"); return; }
    if (strip(vl ? Bytes(v, v + vl) : Bytes{0}) != m || vl != m.size())
        c.fail("decode-value", "integer %s decoded to %s", hex(exp).substr(0, 80).c_str(), hex(v, vl).substr(0, 80).c_str());
}
VF_CASE("C20", "integer", 30000, 0.2, 15, [](Ctx& c) {
    Bytes m = c.r.ebytes(1 + gen_len(c.r, 70000));
    size_t z = c.r.below(4) ? 0 : 1 + c.r.below(4);
    for (size_t i = 0; i < z && i < m.size(); i++) m[i] = 0;
    if (c.r.chance(1, 3)) m[std::min(z, m.size() - 1)] |= 0x80;
    integer_case(c, m);
});
VF_CASE("C20", "integer-small", 70000, 0.3, 1, [](Ctx& c) { // every one- and two-byte integer
    size_t i = c.idx % 65792;
    integer_case(c, i < 256 ? Bytes{(u8)i} : Bytes{(u8)((i - 256) >> 8), (u8)(i - 256)});
});
VF_CASE("C20", "octet-string", 12000, 0.2, 15, [](Ctx& c) {
    Bytes v = c.r.ebytes(gen_len(c.r, 140000)), trail = c.r.ebytes(c.r.below(6)), exp = der(4, v);
    if (c.idx % 3000 == 7) v = c.r.bytes(c.r.pick<size_t>({16777215, 16777216, 16777217})), exp = der(4, v), c.tag("three- or four-byte length");
    c.in(v);
    if (v.empty()) c.tag("empty octet string");
    c.sample(fmt("octet string of %zu bytes", v.size()));
    Buf d(v, c.r.below(8));
    Enc{c, exp, trail, "octet string"}.run(asn1_encode_octet_string_outl(v.size()), ASN1_ENCODE_OCTET_STRING_MAX_OUTL(v.size()),
        [&](u8* o, size_t* l) { asn1_encode_octet_string_tlv(o, l, d.p(), v.size()); });
    Buf       in(exp + trail, c.r.below(8));
    const u8* p = nullptr;
    size_t    vl = 0, rn = 0;
    int       err = asn1_decode_octet_string_value(&p, &vl, &rn, in.p(), in.size());
    if (err) { c.fail("decode-error", "octet string of %zu bytes refused with %d", v.size(), err); return; }
    if (rn != exp.size() || vl != v.size() || p != in.p() + (exp.size() - v.size()))
        c.fail("decode-value", "octet string of %zu bytes: consumed %zu of %zu, length %zu, offset %td", v.size(), rn, exp.size(), vl, p - in.p());
});
VF_CASE("C20", "bit-string", 12000, 0.2, 15, [](Ctx& c) {
    size_t bits = c.r.chance(1, 2) ? 8 * gen_len(c.r, 70000) + c.r.below(8) : c.r.below(80);
    size_t n    = (bits + 7) / 8;
    Bytes  v = c.r.ebytes(n), trail = c.r.ebytes(c.r.below(6));
    u8     unused = (u8)((8 - bits % 8) % 8);
    if (n) v[n - 1] &= (u8)(0xff << unused);
    Bytes exp = der(3, Bytes{unused} + v);
    c.in(v), c.in(bits);
    c.tag(fmt("%u unused bits", unused));
    if (!bits) c.tag("empty bit string");
    c.sample(fmt("bit string of %zu bits", bits));
    Buf d(v, c.r.below(8));
    Enc{c, exp, trail, "bit string"}.run(asn1_encode_bit_string_outl(bits), ASN1_ENCODE_BIT_STRING_MAX_OUTL(bits),
        [&](u8* o, size_t* l) { asn1_encode_bit_string_tlv(o, l, d.p(), n, bits); });
    Buf       in(exp + trail, c.r.below(8));
    const u8* p = nullptr;
    size_t    vl = 0, rn = 0, bl = 0;
    int       err = asn1_decode_bit_string_value(&p, &vl, &bl, &rn, in.p(), in.size());
    if (err) { c.fail("decode-error", "bit string of %zu bits refused with %d", bits, err); return; }
    c.out((u64)bl);
    if (bl != bits) c.fail("decode-bits", "bit string of %zu bits decoded as %zu bits: %s", bits, bl, hex(exp).substr(0, 60).c_str());
    if (rn != exp.size() || vl != n || p != in.p() + (exp.size() - n))
        c.fail("decode-value", "bit string of %zu bits: consumed %zu of %zu, length %zu", bits, rn, exp.size(), vl);
});
VF_CASE("C20", "sequence-set", 12000, 0.2, 15, [](Ctx& c) {
    bool  set = c.r.below(2);
    Bytes v = c.r.ebytes(gen_len(c.r, 70000)), trail = c.r.ebytes(c.r.below(6));
    Bytes exp = der(set ? 0x31 : 0x30, v), h = tl(set ? 0x31 : 0x30, v.size());
    c.in(v), c.in((u64)set);
    if (v.empty()) c.tag("empty sequence or set");
    c.sample(fmt("%s of %zu bytes", set ? "set" : "sequence", v.size()));
    size_t ann = set ? asn1_encode_set_outl(v.size()) : asn1_encode_sequence_outl(v.size());
    size_t mx  = set ? ASN1_ENCODE_SET_MAX_OUTL(v.size()) : ASN1_ENCODE_SEQUENCE_MAX_OUTL(v.size());
    if (ann != exp.size()) c.fail("announced-size", "sequence/set of %zu bytes: announced %zu, needs %zu", v.size(), ann, exp.size());
    if (mx < exp.size()) c.fail("announced-maximum", "sequence/set of %zu bytes: maximum %zu, needs %zu", v.size(), mx, exp.size());
    Enc{c, h, trail, "header"}.run(h.size(), mx, [&](u8* o, size_t* l) { if (set) asn1_encode_set_tl(o, l, v.size()); else asn1_encode_sequence_tl(o, l, v.size()); });
    Buf       in(exp + trail, c.r.below(8));
    const u8* p = nullptr;
    size_t    vl = 0, rn = 0;
    int       err = set ? asn1_decode_set_value(&p, &vl, &rn, in.p(), in.size()) : asn1_decode_sequence_value(&p, &vl, &rn, in.p(), in.size());
    if (err) { c.fail("decode-error", "%s of %zu bytes refused with %d", set ? "set" : "sequence", v.size(), err); return; }
    if (rn != exp.size() || vl != v.size() || p != in.p() + h.size())
        c.fail("decode-value", "%s of %zu bytes: consumed %zu of %zu, length %zu", set ? "set" : "sequence", v.size(), rn, exp.size(), vl);
});
VF_CASE("C20", "small-types", 2000, 0.3, 5, [](Ctx& c) {
    bool  v = c.idx & 1;
    Bytes trail = c.r.ebytes(c.r.below(6)), exp{1, 1, (u8)(v ? 0xff : 0)};
    c.in(c.idx);
    Enc{c, exp, trail, "boolean"}.run(asn1_encode_boolean_outl(), ASN1_ENCODE_BOOLEAN_MAX_OUTL(), [&](u8* o, size_t* l) { asn1_encode_boolean_tlv(o, l, v); });
    Buf    in(exp + trail, c.r.below(8));
    bool   r  = !v;
    size_t rn = 0;
    if (asn1_decode_boolean_value(&r, &rn, in.p(), in.size()) || r != v || rn != 3) c.fail("decode-value", "boolean %d decoded to %d, consumed %zu", v, r, rn);
    Buf nul(Bytes{5, 0} + trail, c.r.below(8));
    rn = 0;
    if (asn1_decode_null_value(&rn, nul.p(), nul.size()) || rn != 2) c.fail("decode-value", "NULL refused or consumed %zu", rn);
});
// headers and sizes for content lengths too large to materialise
VF_CASE("C20", "huge-lengths", 20000, 0.3, 10, [](Ctx& c) {
    u64 l = c.r.next() >> c.r.below(64);
    if (c.r.chance(1, 2)) { unsigned k = 7 * (unsigned)c.r.below(2) + 8 * (unsigned)c.r.below(8); l = (k >= 64 ? 0 : (u64)1 << k) + c.r.below(5) - 2; }
    if (l > ~(u64)0 - 32) l -= 64;
    c.in(l);
    c.sample(fmt("content length %llx", (unsigned long long)l));
    if (l >> 56) c.tag("eight length octets");
    c.tag(fmt("%zu header bytes", tl(0, l).size()));
    struct { const char* n; u8 tag; void (*f)(u8*, size_t*, size_t) noexcept; size_t (*s)(size_t) noexcept; } fs[] = {
        {"sequence", 0x30, asn1_encode_sequence_tl, asn1_encode_sequence_outl}, {"set", 0x31, asn1_encode_set_tl, asn1_encode_set_outl},
        {"octet string", 0x04, asn1_encode_octet_string_tl, asn1_encode_octet_string_outl}, {"bit string", 0x03, asn1_encode_bit_string_tl, nullptr}};
    for (auto& f : fs)
    {
        Bytes  h = tl(f.tag, l);
        Buf    b(h.size(), c.r.below(8));
        size_t n = 0x77;
        f.f(b.p(), &n, l);
        if (!b.ok()) c.fail("encode-overrun", "%s header for %llx bytes overruns", f.n, (unsigned long long)l);
        if (f.tag < 0x30) b.p()[0] &= 0xdf; // the header of a string may announce the constructed form
        if (n != h.size()) c.fail("encode-length", "%s header for %llx: %zu bytes, expected %zu", f.n, (unsigned long long)l, n, h.size());
        else c.eq("encode-bytes", b.p(), h.data(), n, fmt("%s header for %llx", f.n, (unsigned long long)l));
        if (f.s && f.s(l) != h.size() + l) c.fail("announced-size", "%s of %llx bytes: announced %zx", f.n, (unsigned long long)l, f.s(l));
    }
    if (asn1_encode_tlv_outl(l) != tl(0, l).size() + l) c.fail("announced-size", "tlv of %llx bytes: announced %zx", (unsigned long long)l, asn1_encode_tlv_outl(l));
    if (ASN1_ENCODE_TLV_MAX_OUTL(l) < tl(0, l).size() + l) c.fail("announced-maximum", "tlv of %llx bytes", (unsigned long long)l);
});
VF_REQ("C20", "integer with leading zero byte", "integer with top bit set", "empty octet string", "empty bit string", "7 unused bits", "0 unused bits",
       "empty sequence or set", "eight length octets", "10 header bytes", "2 header bytes", "three- or four-byte length");

// ---------------------------------------------------------------- C21
enum Kind { TLV, BOOL, INT, BIT, OCT, NUL, SEQ, SET, NKIND };
static const char* kname[] = {"tlv", "boolean", "integer", "bit string", "octet string", "null", "sequence", "set"};
struct Dec
{
    int       err;
    size_t    rn = 0, vl = 0, bits = 0;
    const u8* v = nullptr;
    bool      b = false;
    Asn1TLV   t;
};
static Dec call(int k, const u8* p, size_t n)
{
    Dec d;
    switch (k)
    {
    case TLV: d.err = asn1_decode_tlv(&d.t, &d.rn, p, n); if (!d.err) d.v = d.t.value, d.vl = d.t.length; break;
    case BOOL: d.err = asn1_decode_boolean_value(&d.b, &d.rn, p, n); break;
    case INT: d.err = asn1_decode_integer_value(&d.v, &d.vl, &d.rn, p, n); break;
    case BIT: d.err = asn1_decode_bit_string_value(&d.v, &d.vl, &d.bits, &d.rn, p, n); break;
    case OCT: d.err = asn1_decode_octet_string_value(&d.v, &d.vl, &d.rn, p, n); break;
    case NUL: d.err = asn1_decode_null_value(&d.rn, p, n); break;
    case SEQ: d.err = asn1_decode_sequence_value(&d.v, &d.vl, &d.rn, p, n); break;
    default: d.err = asn1_decode_set_value(&d.v, &d.vl, &d.rn, p, n);
    }
    return d;
}
// what the reference expects of decoder k
static Verdict expect(int k, Tlv& t, const u8* p, size_t n)
{
    Verdict v = parse(t, p, n);
    if (v == BAD || k == TLV) return v;
    static const u8 num[] = {0, 1, 2, 3, 4, 5, 16, 17};
    if ((t.tag & 0xc0) != 0 || (t.tag & 0x1f) != num[k]) return BAD;
    bool cons = t.tag & 0x20;
    if (k == SEQ || k == SET) { if (!cons) return BAD; }
    else if (k == BIT || k == OCT) { if (cons) v = UNSPEC; } // constructed strings: left open
    else if (cons) return BAD;
    const u8* c = p + t.head;
    if (k == BOOL && t.len != 1) return BAD;
    if (k == NUL && t.len != 0) return BAD;
    if (k == INT)
    {
        if (t.len == 0) return BAD;
        if (t.len > 1 && ((c[0] == 0 && !(c[1] & 0x80)) || (c[0] == 0xff && (c[1] & 0x80)))) return BAD;
        if (c[0] & 0x80) v = UNSPEC; // negative: may be refused
    }
    if (k == BIT)
    {
        if (t.len == 0 || c[0] > 7 || (t.len == 1 && c[0])) return t.tag & 0x20 ? UNSPEC : BAD;
        if (t.len > 1 && (c[t.len - 1] & ((1u << c[0]) - 1))) v = UNSPEC; // non-zero padding bits
    }
    if (k == BOOL && c[0] != 0 && c[0] != 0xff) v = UNSPEC;
    if (!t.minimal) v = UNSPEC; // BER length: may be refused
    return v;
}
static bool check_dec(Ctx& c, int k, const u8* p, size_t n)
{
    Tlv     t{};
    Verdict v = expect(k, t, p, n);
    Dec     d = call(k, p, n);
    auto    show = [&] { return hex(p, std::min<size_t>(n, 40)) + (n > 40 ? fmt("..(%zu bytes)", n) : ""); };
    if (d.err && d.err != -1 && d.err != -2) c.fail("error-code", "%s: code %d for %s", kname[k], d.err, show().c_str());
    if (d.err)
    {
        if (v == OK) c.fail("decode-refused", "%s refused with %d: %s", kname[k], d.err, show().c_str());
        return false;
    }
    if (v == BAD) { c.fail((std::string("accepts-") + kname[k]).c_str(), "%s accepted from %s", kname[k], show().c_str()); return false; }
    if (d.rn > n || d.rn != t.head + t.len) { c.fail("consumed", "%s: consumed %zu of %zu, header %zu content %zu: %s", kname[k], d.rn, n, t.head, t.len, show().c_str()); return false; }
    if (k == BOOL || k == NUL)
    {
        if (k == BOOL && d.b != (p[t.head] != 0)) c.fail("value", "boolean decoded to %d from %s", d.b, show().c_str());
        return true;
    }
    size_t off = k == BIT ? 1 : k == INT && t.len > 1 && p[t.head] == 0 ? 1 : 0;
    if (k == BIT && (t.tag & 0x20)) return true;
    if (d.v != p + t.head + off || d.vl != t.len - off)
        c.fail("value", "%s: value at %td length %zu, expected at %zu length %zu: %s", kname[k], d.v - p, d.vl, t.head + off, t.len - off, show().c_str());
    if (k == BIT && d.bits != 8 * (t.len - 1) - p[t.head]) c.fail("value", "bit string: %zu bits from %s", d.bits, show().c_str());
    if (k == TLV && ((int)d.t.tag_class != (p[0] & 0xc0) || (int)d.t.tag_pc != (p[0] & 0x20) || (int)d.t.tag_number != (p[0] & 0x1f)))
        c.fail("value", "tag of %s decoded to %d %d %d", show().c_str(), d.t.tag_class, d.t.tag_pc, d.t.tag_number);
    return true;
}
static Bytes gen_tlv(Rnd& r, int depth)
{
    u8 tag = r.chance(3, 4) ? r.pick<u8>({1, 2, 3, 4, 5, 0x30, 0x31, 6, 12, 0x23, 0x24}) : (u8)r.next();
    Bytes v;
    if (tag & 0x20 && depth) { size_t k = r.below(4); for (size_t i = 0; i < k; i++) v = v + gen_tlv(r, depth - 1); }
    else switch (tag)
    {
    case 1: v = {r.pick<u8>({0, 0xff, 1, (u8)r.next()})}; break;
    case 2: v = r.ebytes(1 + r.below(r.chance(1, 8) ? 300 : 36)); if (r.chance(1, 3)) v[0] = 0; break;
    case 3: v = Bytes{(u8)r.below(8)} + r.ebytes(r.below(r.chance(1, 8) ? 300 : 20)); break;
    case 5: break;
    default: v = r.ebytes(r.below(r.chance(1, 8) ? 300 : 20));
    }
    if (r.chance(1, 6))
    { // long form with superfluous octets
        Bytes  o{tag};
        size_t k = 1 + r.below(9);
        o.push_back((u8)(0x80 | k));
        for (size_t i = k; i-- > 0;) o.push_back(i >= 8 ? 0 : (u8)((u64)v.size() >> (8 * i)));
        return o + v;
    }
    return der(tag, v);
}
static void mutate(Rnd& r, Bytes& b)
{
    size_t k = 1 + r.below(3);
    for (size_t i = 0; i < k && !b.empty(); i++)
        switch (r.below(7))
        {
        case 0: b[r.below(b.size())] ^= (u8)(1u << r.below(8)); break;
        case 1: b[r.below(b.size())] = r.pick<u8>({0, 0x7f, 0x80, 0x81, 0x82, 0x84, 0x88, 0x89, 0xff, 1}); break;
        case 2: b.resize(r.below(b.size() + 1)); break;
        case 3: if (b.size() > 1) b[1] = (u8)r.next(); break;
        case 4: b[0] ^= r.pick<u8>({0x20, 0x40, 0x80, 0xc0, 1, 2, 0x1f}); break;
        case 5: b.insert(b.begin() + r.below(b.size() + 1), (u8)r.next()); break;
        default:
        { // huge length
            Bytes o{b[0], (u8)(0x80 | (1 + r.below(8)))};
            for (int j = 0; j < (o[1] & 0x7f); j++) o.push_back(r.pick<u8>({0, 0xff, 0x7f, 0x80, (u8)r.next()}));
            b = o + Bytes(b.begin() + std::min<size_t>(2, b.size()), b.end());
        }
        }
}
VF_CASE("C21", "hostile", 60000, 0.4, 15, [](Ctx& c) {
    Bytes b = c.r.chance(1, 8) ? c.r.ebytes(c.r.below(24)) : gen_tlv(c.r, 2);
    if (c.r.chance(2, 3)) mutate(c.r, b);
    if (c.r.chance(1, 4)) b = b + c.r.ebytes(c.r.below(5));
    c.in(b);
    c.sample(hex(b));
    Buf  p(b, c.r.below(4));
    Tlv  t{};
    if (parse(t, p.p(), b.size()) == BAD) c.tag("malformed or truncated");
    else if (!t.minimal) c.tag("long-form length not minimal");
    if (b.size() > 2 && (b[1] & 0x80) && (b[1] & 0x7f) >= 8) c.tag("eight or more length octets");
    for (int k = 0; k < NKIND; k++)
    {
        bool a = check_dec(c, k, p.p(), b.size());
        c.out((u64)a);
        if (a) c.tag(std::string("accepted as ") + kname[k]);
        else c.tag(std::string("refused as ") + kname[k]);
    }
});
// every input of up to three bytes, by every decoder
VF_CASE("C21", "exhaustive-short", 256, 1, 1, [](Ctx& c) {
    u8 b0 = (u8)c.idx;
    c.in(c.idx);
    u64 n = 0;
    Buf b1(1), b2(2), b3(3);
    for (int k = 0; k < NKIND && c.idx == 0; k++) { Buf z(0); check_dec(c, k, z.p(), 0); n++; }
    b1.p()[0] = b2.p()[0] = b3.p()[0] = b0;
    for (int k = 0; k < NKIND; k++) check_dec(c, k, b1.p(), 1), n++;
    for (int x = 0; x < 256; x++)
    {
        b2.p()[1] = b3.p()[1] = (u8)x;
        for (int k = 0; k < NKIND; k++) check_dec(c, k, b2.p(), 2), n++;
        for (int y = 0; y < 256; y++)
        {
            b3.p()[2] = (u8)y;
            for (int k = 0; k < NKIND; k++) check_dec(c, k, b3.p(), 3), n++;
        }
    }
    c.tag("short inputs decoded", n);
    c.sample(fmt("all inputs of up to three bytes starting with %02x", b0));
});
// every truncation and every single-byte alteration of header bytes
VF_CASE("C21", "truncations", 1500, 0.3, 15, [](Ctx& c) {
    Bytes b = gen_tlv(c.r, 3);
    if (b.size() > 1500) b.resize(1500);
    c.in(b);
    c.sample(hex(b).substr(0, 80));
    for (size_t l = 0; l <= b.size(); l += l < 24 || l + 24 > b.size() ? 1 : 1 + c.r.below(9))
    {
        Buf p(b.data(), l, 0);
        for (int k = 0; k < NKIND; k++) check_dec(c, k, p.p(), l);
        c.tag("truncations tried");
    }
    for (size_t i = 0; i < std::min<size_t>(b.size(), 4); i++)
        for (int x = 0; x < 256; x++)
        {
            Bytes m = b;
            m[i]    = (u8)x;
            Buf p(m);
            for (int k = 0; k < NKIND; k++) check_dec(c, k, p.p(), m.size());
        }
});
VF_REQ("C21", "malformed or truncated", "long-form length not minimal", "eight or more length octets", "accepted as boolean", "accepted as integer", "accepted as bit string",
       "accepted as octet string", "accepted as null", "accepted as sequence", "accepted as set", "refused as tlv", "truncations tried", "short inputs decoded");

// ---------------------------------------------------------------- C22
static Bytes comp(Rnd& r, bool lead0)
{ // a 32-byte component
    Bytes b = r.chance(1, 3) ? r.ebytes(32) : r.bytes(32);
    if (lead0) { size_t k = r.chance(1, 3) ? 1 + r.below(32) : 1; for (size_t i = 0; i < k; i++) b[i] = 0; if (k < 32 && r.below(2)) b[k] |= 0x80; }
    else
    {
        if (r.below(2)) b[0] |= 0x80;
        else { b[0] &= 0x7f; if (!b[0]) b[0] = 1 + (u8)r.below(127); }
    }
    return b;
}
struct St
{ // a structure to encode
    int                kind; // 0 private 1 public 2 signature 3 cipher
    std::vector<Bytes> f;
    Bytes              enc() const
    {
        switch (kind)
        {
        case 0: return der_int(f[0]);
        case 1: return der(3, Bytes{0} + f[0]);
        case 2: return der(0x30, der_int(f[0]) + der_int(f[1]));
        default: return der(0x30, der_int(f[0]) + der_int(f[1]) + der(4, f[2]) + der(4, f[3]));
        }
    }
};
static const char* sname[] = {"private key", "public key", "signature", "ciphertext"};
static St gen_st(Rnd& r, bool lead0)
{
    St s{(int)r.below(4), {}};
    if (lead0 && s.kind == 1) s.kind = 2;
    bool a = lead0 && r.below(2), b = lead0 && (!a || r.below(3) == 0);
    if (s.kind == 0) s.f = {comp(r, lead0)};
    else if (s.kind == 1) s.f = {Bytes{4} + r.ebytes(64)};
    else s.f = {comp(r, a), comp(r, b)};
    if (s.kind == 3)
    {
        s.f.push_back(r.ebytes(r.chance(3, 4) ? 32 : r.pick<size_t>({0, 20, 48, 64, 130})));
        s.f.push_back(r.ebytes(gen_len(r, 70000)));
    }
    return s;
}
// decode; false when refused
static bool dec_st(int kind, const u8* p, size_t n, std::vector<std::pair<const u8*, size_t>>& o, size_t& rn)
{
    rn = 0x9999;
    o.clear();
    switch (kind)
    {
    case 0: { si::ASN1_SM2PrivateKey k{}; if (si::sm2_private_key_asn1_decode(&k, &rn, p, n)) return false; o = {{k.value, 32}}; return true; }
    case 1: { si::ASN1_SM2PublicKey k{}; if (si::sm2_public_key_asn1_decode(&k, &rn, p, n)) return false; o = {{k.value, 65}}; return true; }
    case 2: { si::ASN1_SM2Signature k{}; if (si::sm2_signature_asn1_decode(&k, &rn, p, n)) return false; o = {{k.R, 32}, {k.S, 32}}; return true; }
    default: { si::ASN1_SM2Cipher k{}; if (si::sm2_cipher_asn1_decode(&k, &rn, p, n)) return false;
        o = {{k.XCoordinate, 32}, {k.YCoordinate, 32}, {k.HASH.value, k.HASH.length}, {k.CipherText.value, k.CipherText.length}}; return true; }
    }
}
static void encode_st(Ctx& c, const St& s)
{
    Bytes              e = s.enc();
    std::vector<std::unique_ptr<Buf>> b;
    for (auto& f : s.f) b.emplace_back(new Buf(f, c.r.below(4)));
    size_t ann = 0, mx = 0;
    si::ASN1_SM2PrivateKey pr{};
    si::ASN1_SM2PublicKey  pu{};
    si::ASN1_SM2Signature  sg{};
    si::ASN1_SM2Cipher     ci{};
    switch (s.kind)
    {
    case 0: pr.value = b[0]->p(); ann = si::sm2_private_key_asn1_encode_outl(&pr); mx = si::SM2_PRIVATE_KEY_ASN1_ENCODE_MAX_OUTL(); break;
    case 1: pu.value = b[0]->p(); ann = si::sm2_public_key_asn1_encode_outl(&pu); mx = si::SM2_PUBLIC_KEY_ASN1_ENCODE_MAX_OUTL(); break;
    case 2: sg.R = b[0]->p(), sg.S = b[1]->p(); ann = si::sm2_signature_asn1_encode_outl(&sg); mx = si::SM2_SIGNATURE_ASN1_ENCODE_MAX_OUTL(); break;
    default: ci.XCoordinate = b[0]->p(), ci.YCoordinate = b[1]->p(), ci.HASH.value = b[2]->p(), ci.HASH.length = s.f[2].size(), ci.CipherText.value = b[3]->p(), ci.CipherText.length = s.f[3].size();
        ann = si::sm2_cipher_asn1_encode_outl(&ci); mx = si::sm2_cipher_asn1_encode_max_outl(s.f[2].size(), s.f[3].size());
    }
    Enc{c, e, {}, sname[s.kind]}.run(ann, mx, [&](u8* o, size_t* l) {
        switch (s.kind)
        {
        case 0: si::sm2_private_key_asn1_encode_outl(o, l, &pr); break;
        case 1: si::sm2_public_key_asn1_encode(o, l, &pu); break;
        case 2: si::sm2_signature_asn1_encode(o, l, &sg); break;
        default: si::sm2_cipher_asn1_encode(o, l, &ci);
        }
    });
}
static void st_case(Ctx& c, bool lead0)
{
    St s = gen_st(c.r, lead0);
    c.in((u64)s.kind);
    for (auto& f : s.f) c.in(f);
    c.tag(std::string(sname[s.kind]) + (lead0 ? " with a leading zero byte" : ""));
    c.sample(std::string(sname[s.kind]) + " " + hex(s.enc()).substr(0, 120));
    encode_st(c, s);
    Bytes e = s.enc();
    Buf   in(e + c.r.ebytes(c.r.below(6)), c.r.below(4));
    std::vector<std::pair<const u8*, size_t>> o;
    size_t rn;
    if (!dec_st(s.kind, in.p(), in.size(), o, rn))
    {
        c.fail(lead0 ? "roundtrip-leading-zero" : "roundtrip-refused", "%s refused: %s", sname[s.kind], hex(e).substr(0, 200).c_str());
        return;
    }
    if (rn != e.size()) c.fail("consumed", "%s: consumed %zu of %zu", sname[s.kind], rn, e.size());
    for (size_t i = 0; i < o.size(); i++)
        if (o[i].second != s.f[i].size() || (o[i].second && (o[i].first < in.p() || o[i].first + o[i].second > in.p() + in.size() || std::memcmp(o[i].first, s.f[i].data(), o[i].second))))
            c.fail("roundtrip-value", "%s: component %zu differs: %s", sname[s.kind], i, hex(e).substr(0, 200).c_str());
}
VF_CASE("C22", "roundtrip", 30000, 0.2, 10, [](Ctx& c) { st_case(c, false); });
VF_CASE("C22", "roundtrip-leading-zero", 4000, 0.2, 10, [](Ctx& c) { st_case(c, true); });
// Reference verdict on an alleged structure. OK: DER of one; BAD: not one.
static Verdict ref_int(const u8* p, size_t n, Tlv& t)
{
    Verdict v = expect(INT, t, p, n);
    if (v == BAD) return BAD;
    const u8* c = p + t.head;
    if (c[0] & 0x80) return BAD; // negative
    size_t m = t.len - (t.len > 1 && c[0] == 0);
    if (m > 32) return BAD;
    if (m < 32) return UNSPEC; // fewer than 32 significant bytes
    return t.minimal ? OK : UNSPEC;
}
static Verdict ref_st(int kind, const u8* p, size_t n, std::vector<std::pair<size_t, size_t>>& f, size_t& total)
{
    Tlv     t{};
    Verdict v, r = OK;
    f.clear();
    auto num = [&](size_t at, size_t avail) {
        Tlv     q{};
        Verdict w = ref_int(p + at, avail, q);
        if (w != BAD) { size_t z = q.len == 33; f.push_back({at + q.head + z, q.len - z}); t = q; }
        return w;
    };
    auto merge = [&](Verdict w) { if (w == BAD) r = BAD; else if (w == UNSPEC && r == OK) r = UNSPEC; return w != BAD; };
    if (kind == 0) { if (merge(num(0, n))) total = t.head + t.len; return r; }
    if (kind == 1)
    {
        v = expect(BIT, t, p, n);
        if (v == BAD) return BAD;
        total = t.head + t.len;
        if (t.tag & 0x20) return UNSPEC;
        if (t.len != 66 || p[t.head] != 0) return BAD;
        f.push_back({t.head + 1, 65});
        if (p[t.head + 1] != 4) v = UNSPEC;
        return v;
    }
    if (!merge(expect(SEQ, t, p, n))) return BAD;
    total = t.head + t.len;
    size_t at = t.head, left = t.len;
    for (int i = 0; i < 2; i++)
    {
        if (!merge(num(at, left))) return BAD;
        at += t.head + t.len, left -= t.head + t.len;
    }
    for (int i = 0; kind == 3 && i < 2; i++)
    {
        if (!merge(expect(OCT, t, p + at, left))) return BAD;
        f.push_back({at + t.head, t.len});
        at += t.head + t.len, left -= t.head + t.len;
    }
    return left ? BAD : r;
}
static void st_hostile(Ctx& c, int kind, const Bytes& b)
{
    std::vector<std::pair<size_t, size_t>>    f;
    std::vector<std::pair<const u8*, size_t>> o;
    size_t  total = 0, rn;
    Buf     in(b, c.r.below(4));
    Verdict v  = ref_st(kind, in.p(), b.size(), f, total);
    bool    ok = dec_st(kind, in.p(), b.size(), o, rn);
    c.out((u64)ok);
    std::string show = hex(b).substr(0, 260);
    if (ok && v == BAD) { c.fail((std::string("accepts-malformed-") + (kind == 0 ? "private" : kind == 1 ? "public" : kind == 2 ? "signature" : "cipher")).c_str(), "malformed %s accepted: %s", sname[kind], show.c_str()); return; }
    if (!ok && v == OK) { c.fail("refuses-valid", "valid %s refused: %s", sname[kind], show.c_str()); return; }
    c.tag(v == BAD ? "malformed structures" : v == OK ? "valid structures" : "structures left open");
    if (!ok) return;
    if (rn != total) c.fail("consumed", "%s: consumed %zu, expected %zu: %s", sname[kind], rn, total, show.c_str());
    if (v != OK) { if (rn > b.size()) c.fail("consumed", "%s: consumed %zu of %zu", sname[kind], rn, b.size()); return; }
    for (size_t i = 0; i < o.size(); i++)
        if (o[i].first != in.p() + f[i].first || o[i].second != f[i].second)
            c.fail("hostile-value", "%s: component %zu at %td length %zu, expected at %zu length %zu: %s", sname[kind], i, o[i].first - in.p(), o[i].second, f[i].first, f[i].second, show.c_str());
}
VF_CASE("C22", "hostile", 40000, 0.4, 15, [](Ctx& c) {
    St    s = gen_st(c.r, c.r.chance(1, 6));
    if (s.kind == 3 && s.f[3].size() > 200) s.f[3].resize(200);
    Bytes b = s.enc();
    int   kind = c.r.chance(7, 8) ? s.kind : (int)c.r.below(4);
    switch (c.r.below(8))
    {
    case 0: b.resize(c.r.below(b.size() + 1)); break;
    case 1: if (s.kind >= 2) b = der(0x30, Bytes(b.begin() + (b[1] & 0x80 ? 2 + (b[1] & 0x7f) : 2), b.end()) + der(c.r.pick<u8>({2, 4, 5}), c.r.bytes(c.r.below(4)))), c.tag("superfluous element"); break;
    case 2: b = c.r.ebytes(c.r.below(150)); break;
    case 3:
    { // a negative number or one of another length
        Bytes n1 = der(2, c.r.chance(1, 2) ? Bytes{0} + c.r.ebytes(31 + c.r.below(3)) : c.r.bytes(31 + c.r.below(3)));
        Bytes n2 = der_int(comp(c.r, false));
        if (c.r.below(2)) std::swap(n1, n2);
        b = s.kind == 0 ? n1 : der(0x30, n1 + n2 + (s.kind == 3 ? der(4, c.r.bytes(32)) + der(4, c.r.bytes(5)) : Bytes()));
        c.tag("unusual numbers");
        break;
    }
    case 4:
    {
        Bytes k = c.r.bytes(63 + c.r.below(5));
        if (!k.empty()) k[0] = 4;
        b = der(3, Bytes{(u8)c.r.below(9)} + k), kind = 1, c.tag("public key of another length");
        break;
    }
    default: mutate(c.r, b);
    }
    c.in((u64)kind), c.in(b);
    c.sample(std::string(sname[kind]) + " " + hex(b).substr(0, 120));
    st_hostile(c, kind, b);
});
VF_CASE("C22", "truncations", 400, 0.3, 15, [](Ctx& c) {
    St s = gen_st(c.r, c.r.chance(1, 6));
    if (s.kind == 3 && s.f[3].size() > 200) s.f[3].resize(200);
    Bytes b = s.enc();
    c.in((u64)s.kind), c.in(b);
    for (size_t l = 0; l < b.size(); l++) st_hostile(c, s.kind, Bytes(b.begin(), b.begin() + l)), c.tag("truncations tried");
    for (size_t i = 0; i < std::min<size_t>(b.size(), 8); i++)
        for (int k = 0; k < 8; k++)
        {
            Bytes m = b;
            m[i] ^= (u8)(1u << k);
            st_hostile(c, s.kind, m);
        }
});
VF_REQ("C22", "private key", "public key", "signature", "ciphertext", "signature with a leading zero byte", "malformed structures", "valid structures", "superfluous element",
       "unusual numbers", "public key of another length", "truncations tried");

// ---------------------------------------------------------------- C34
struct Capture
{ // standard output of a call
    int fd, save;
    Capture()
    {
        fflush(stdout);
        static int f = memfd_create("vf", 0);
        fd = f;
        if (ftruncate(fd, 0)) std::abort();
        lseek(fd, 0, SEEK_SET);
        save = dup(1);
        dup2(fd, 1);
    }
    std::string get()
    {
        fflush(stdout);
        dup2(save, 1);
        close(save);
        off_t       n = lseek(fd, 0, SEEK_END);
        std::string s((size_t)n, 0);
        if (n && pread(fd, &s[0], (size_t)n, 0) != n) std::abort();
        return s;
    }
};
static std::string cstr(const Bytes& b) { return std::string(b.begin(), b.end()); }
VF_CASE("C34", "memdump", 12000, 0.25, 10, [](Ctx& c) {
    size_t line = c.r.chance(1, 4) ? 16 : 1 + c.r.below(c.r.chance(1, 6) ? 200 : 20);
    size_t n    = c.idx < 60 ? c.r.scale(c.idx, 9, 17) : c.r.len(c.r.chance(1, 20) ? 5000 : 200, line);
    Bytes  m    = c.r.ebytes(n);
    const char* fm  = c.r.pick<const char*>({"%02x", "%02X", "0x%02x,", "%3d", "%u", "%o", nullptr});
    const char* sep = c.r.pick<const char*>({" ", "", ", ", "-", nullptr});
    const char* pre = c.r.pick<const char*>({"", "dump:\n", "%d ", nullptr});
    const char* end = c.r.pick<const char*>({"\n", "", ";%s\n", nullptr});
    bool   asc = c.r.below(2);
    c.in(m), c.in(line), c.in((u64)asc), c.in(hash_str(fm ? fm : "")), c.in(hash_str(sep ? sep : "*"));
    std::string f = fm ? fm : "%02x", s = sep ? sep : " ", e = pre ? pre : "";
    size_t full = 0;
    for (size_t at = 0; at < n; at += line)
    {
        size_t      k = std::min(line, n - at), w = 0;
        std::string l, a;
        for (size_t i = 0; i < k; i++)
        {
            char t[64];
            snprintf(t, sizeof t, f.c_str(), m[at + i]);
            l += t + s;
            a += m[at + i] >= 0x20 && m[at + i] < 0x7f ? (char)m[at + i] : '.';
        }
        w = l.size();
        if (k == line) full = w;
        else while (l.size() < full) l += ' ';
        e += l;
        if (asc) e += "   " + a;
        if (at + k < n && k == line) e += "\n";
    }
    e += end ? end : "";
    if (n % line == 0) c.tag("only full lines"); else c.tag(n > line ? "partial last line" : "one partial line");
    if (!n) c.tag("empty range");
    Buf     b(m, c.r.below(8));
    std::string got;
    {
        Capture cap;
        memory_utils::memdump(b.p(), n, line, fm, asc, sep, pre, end);
        got = cap.get();
    }
    c.out(got.data(), got.size());
    c.sample(fmt("%zu bytes, %zu per line", n, line));
    // trailing blanks of a padded line without the printable column carry nothing
    if (got != e) c.fail("memdump", "dump of %zu bytes, %zu per line, format %s: got \"%s\" expected \"%s\"", n, line, f.c_str(), got.substr(0, 1500).c_str(), e.substr(0, 1500).c_str());
});
static const char* tname(u8 n)
{
    static const char* t[] = {"END_OF_CONTENTS", "BOOLEAN", "INTEGER", "BIT_STRING", "OCTET_STRING", "NULL", "OBJECT_IDENTIFIER", "OBJECT_DESCRIPTOR", "EXTERNAL", "REAL", "ENUMERATED",
        nullptr, "UTF8_STRING", nullptr, nullptr, nullptr, "SEQUENCE", "SET", "NUMERIC_STRING", "PRINTABLE_STRING", "TELETEX_STRING", "VIDEOTEX_STRING", "IA5_STRING", "UTC_TIME",
        "GENERALIZED_TIME", "GRAPHIC_STRING", "VISIBLE_STRING", "GENERAL_STRING", "UNIVERSAL_STRING", nullptr, "BMP_STRING"};
    return n < 31 && t[n] ? t[n] : "UNKNOWN";
}
// tokens of the dump; false when malformed
static bool ref_dump(const u8* p, size_t n, std::string& o, size_t depth, size_t& maxd, bool& open)
{
    maxd = std::max(maxd, depth);
    while (n)
    {
        Tlv     t{};
        Verdict v = parse(t, p, n);
        if (v == BAD) return false;
        if (v == UNSPEC) open = true;
        o += std::string(3 * depth, ' ');
        for (size_t i = 0; i < t.head; i++) o += fmt("%02x ", p[i]);
        static const char* cls[] = {"UNIVERSAL", "APPLICATION", "CONTEXT_SPECIFIC", "PRIVATE"};
        o += fmt("; %s(length = %zu Bytes,%s,%s) ", tname(p[0] & 0x1f), t.len, cls[p[0] >> 6], p[0] & 0x20 ? "CONSTRUCTED" : "PRIMITIVE");
        o += '\n';
        if (p[0] & 0x20) { if (!ref_dump(p + t.head, t.len, o, depth + 1, maxd, open)) return false; }
        else
            for (size_t i = 0; i < t.len; i++)
            {
                if (i % 8 == 0) o += std::string(3 * depth + 3, ' ');
                o += fmt("%02x ", p[t.head + i]);
                if (i % 8 == 7 || i + 1 == t.len) o += '\n';
            }
        p += t.head + t.len, n -= t.head + t.len;
    }
    return true;
}
// the lines and their indentation, the spacing within a line aside
static std::string squeeze(const std::string& s)
{
    std::string o;
    bool        lead = true;
    for (char ch : s)
    {
        if (ch == ' ' && !lead && o.back() == ' ') continue;
        if (ch == '\n')
            while (!o.empty() && o.back() == ' ') o.pop_back();
        o += ch;
        lead = ch == '\n' || (lead && ch == ' ');
    }
    return o;
}
static void dump_case(Ctx& c, const Bytes& b)
{
    std::string e, got;
    size_t      maxd = 0;
    bool        open = false;
    c.in(b);
    bool ok = ref_dump(b.data(), b.size(), e, 0, maxd, open);
    Buf  in(b);
    int  rc;
    {
        Capture cap;
        rc  = asn1_dump(in.p(), b.size());
        got = cap.get();
    }
    c.out((u64)(rc == 0)), c.out(got.data(), got.size());
    c.tag(ok ? "well-formed encodings dumped" : "malformed encodings dumped");
    if (maxd > 2) c.tag("elements nested three deep");
    if (maxd > 64) c.tag("deep nesting");
    c.sample(hex(b).substr(0, 120));
    if (open) return;
    if (!ok) { if (rc == 0) c.fail("dump-accepts-malformed", "malformed encoding dumped without an error: %s", hex(b).substr(0, 200).c_str()); return; }
    if (rc && maxd <= 64) { c.fail("dump-refuses-valid", "error %d for a well-formed encoding (depth %zu): %s", rc, maxd, hex(b).substr(0, 200).c_str()); return; }
    if (rc == 0 && squeeze(got) != squeeze(e))
        c.fail("dump-text", "%s dumped as \"%s\" expected \"%s\"", hex(b).substr(0, 200).c_str(), squeeze(got).substr(0, 800).c_str(), squeeze(e).substr(0, 800).c_str());
}
VF_CASE("C34", "asn1-dump", 20000, 0.3, 10, [](Ctx& c) {
    Bytes b = gen_tlv(c.r, 4);
    while (c.r.chance(1, 3)) b = b + gen_tlv(c.r, 3);
    if (c.idx < 60) b = c.r.below(2) ? b + der(4, c.r.bytes(c.r.scale(c.idx, 7, 16))) : der(4, c.r.bytes(c.r.scale(c.idx, 7, 16))) + b, c.tag("long contents");
    if (c.r.chance(1, 3)) b = der(0x30, b);
    if (c.r.chance(1, 3)) mutate(c.r, b);
    dump_case(c, b);
});
VF_CASE("C34", "asn1-dump-deep", 60, 1, 4, [](Ctx& c) {
    size_t d = c.idx < 30 ? 1 + c.r.below(64) : c.r.pick<size_t>({100, 1000, 20000});
    Bytes  b = c.r.chance(1, 2) ? der(2, {5}) : c.r.chance(1, 2) ? Bytes() : Bytes{2, 9, 1};
    if (d > 1000)
    { // only the return matters: headers written from the outside in
        std::vector<Bytes> h;
        size_t l = b.size();
        for (size_t i = 0; i < d; i++) { h.push_back(tl(c.r.pick<u8>({0x30, 0x31, 0xa0}), l)); l += h.back().size(); }
        Bytes o;
        o.reserve(l);
        for (size_t i = d; i-- > 0;) o.insert(o.end(), h[i].begin(), h[i].end());
        o.insert(o.end(), b.begin(), b.end());
        Buf in(o);
        c.in(o);
        c.tag("very deep nesting");
        int rc;
        { Capture cap; rc = asn1_dump(in.p(), o.size()); cap.get(); }
        bool bad = b.size() == 3 && b[1] == 9;
        if (bad && !rc) c.fail("dump-accepts-malformed", "malformed element below %zu levels dumped without an error", d);
        return;
    }
    for (size_t i = 0; i < d; i++) b = der(c.r.pick<u8>({0x30, 0x31, 0xa0}), b);
    dump_case(c, b);
});
// Output that fails for a while, or for good: the dump ends all the same, its
// return value is the same, and the next dump is complete.
struct Flaky
{
    size_t      calls = 0, from, to, limit; // failing are calls from..to
    bool        every = false, runaway = false;
    jmp_buf     out;
    std::string text;
    static ssize_t write(void* v, const char* p, size_t n)
    {
        Flaky& f = *(Flaky*)v;
        size_t i = f.calls++;
        if (i > f.limit)
        {
            f.runaway = true;
            longjmp(f.out, 1);
        }
        if (f.every ? i % f.to < f.from : i >= f.from && i < f.to)
        {
            errno = EAGAIN;
            return 0;
        }
        f.text.append(p, n);
        return (ssize_t)n;
    }
};
template <class F> static void flaky(Ctx& c, Flaky& f, bool buffered, F dump)
{
    cookie_io_functions_t io{nullptr, Flaky::write, nullptr, nullptr};
    FILE* volatile old = stdout;
    FILE* volatile mine = fopencookie(&f, "w", io);
    setvbuf(mine, nullptr, buffered ? _IOLBF : _IONBF, buffered ? 64 : 0);
    fflush(old);
    stdout = mine;
    if (!setjmp(f.out)) dump();
    stdout = old;
    if (!f.runaway)
    {
        f.from = f.to = 0, f.every = false;
        fclose(mine);
    }
    c.tag("failing outputs");
}
VF_CASE("C34", "failing-output", 3000, 0.3, 10, [](Ctx& c) {
    bool  asn  = c.r.chance(1, 3), asc = c.r.below(2), buffered = c.r.chance(1, 4);
    Bytes b    = asn ? gen_tlv(c.r, 3) : c.r.bytes(1 + c.r.below(60));
    if (asn && c.r.chance(1, 3)) mutate(c.r, b);
    size_t line = 1 + c.r.below(20);
    Buf    in(b);
    int    rc[3] = {0, 0, 0};
    auto   dump  = [&](int i) {
        if (asn) rc[i] = asn1_dump(in.p(), b.size());
        else memory_utils::memdump(in.p(), b.size(), line, "%02x", asc);
    };
    Flaky good;
    good.from = good.to = 0, good.limit = 10000000;
    flaky(c, good, buffered, [&] { dump(0); });
    size_t n = good.calls;
    Flaky  bad;
    bad.every = c.r.chance(1, 3);
    bad.from = c.r.below(n + 1), bad.to = bad.every ? 1 + c.r.below(n + 2) : c.r.chance(1, 4) ? SIZE_MAX : bad.from + c.r.below(n + 1 - bad.from);
    bad.limit = 50 * n + 5 * good.text.size() + 10000;
    c.in(b), c.in((u64)bad.from), c.in((u64)bad.to), c.in((u64)bad.every), c.in((u64)buffered), c.in((u64)line);
    c.sample(fmt("%s of %zu bytes, of %zu writes %s", asn ? "encoding" : "range", b.size(), n, bad.every ? "some fail again and again" : fmt("those from %zu to %zu fail", bad.from, bad.to).c_str()));
    flaky(c, bad, buffered, [&] { dump(1); });
    if (bad.runaway) { c.fail("dump-endless", "dump of %zu bytes, %zu per line, takes %zu writes, and more than %zu when some of them fail", b.size(), line, n, bad.limit); return; }
    if (rc[1] != rc[0]) c.fail("dump-output-error", "asn1_dump returns %d when its output fails, %d otherwise, for %s", rc[1], rc[0], hex(b).c_str());
    Flaky again;
    again.from = again.to = 0, again.limit = 10000000;
    flaky(c, again, buffered, [&] { dump(2); });
    if (again.text != good.text || rc[2] != rc[0]) c.fail("dump-after-failure", "dump of %zu bytes differs after one whose output failed", b.size());
});
VF_REQ("C34", "only full lines", "partial last line", "one partial line", "empty range", "well-formed encodings dumped", "malformed encodings dumped", "elements nested three deep", "very deep nesting", "failing outputs");
VF_MAIN
