// C11 XOR, byte order and counters; C34 memory dump
#include "vf.h"
#include <array>
#include <gmlib/block_cipher_mode/internal/ctr_inc.h>
#include <gmlib/block_cipher_mode/internal/gctr_inc.h>
#include <gmlib/memory_utils/endian.h>
#include <gmlib/memory_utils/memxor.h>
#include <utility>
using namespace vf;

static Bytes xr(const Bytes& a, const Bytes& b)
{
    Bytes r(a.size());
    for (size_t i = 0; i < a.size(); i++) r[i] = a[i] ^ b[i];
    return r;
}
// run f(out, in1, in2) on buffers of exactly n bytes in every aliasing
template <class F>
static void xor_all(Ctx& c, const char* key, size_t n, const std::string& what, F f)
{
    Bytes a = c.r.ebytes(n), b = c.r.ebytes(n), e = xr(a, b), z(n);
    c.in(a), c.in(b);
    size_t o1 = c.r.below(33), o2 = c.r.below(33), o3 = c.r.below(33);
    {
        Buf x(a, o1), y(b, o2), o(n, o3);
        f(o.p(), x.p(), y.p());
        c.eq(key, o.bytes(), e, what);
        c.out(o.bytes());
        if (x.bytes() != a || y.bytes() != b) c.fail("xor-input", "%s changed an input", what.c_str());
        if (!o.ok() || !x.ok() || !y.ok()) c.fail("xor-overrun", "%s wrote outside its output", what.c_str());
    }
    {
        Buf x(a, o1), y(b, o2);
        f(x.p(), x.p(), y.p());
        c.eq(key, x.bytes(), e, what + " onto the first input");
        if (y.bytes() != b || !x.ok() || !y.ok()) c.fail("xor-overrun", "%s (onto the first input) wrote outside its output", what.c_str());
    }
    {
        Buf x(a, o1), y(b, o2);
        f(y.p(), x.p(), y.p());
        c.eq(key, y.bytes(), e, what + " onto the second input");
        if (x.bytes() != a || !x.ok() || !y.ok()) c.fail("xor-overrun", "%s (onto the second input) wrote outside its output", what.c_str());
    }
    {
        Buf x(a, o1), o(n, o3);
        f(o.p(), x.p(), x.p());
        c.eq(key, o.bytes(), z, what + " of a buffer with itself");
        f(x.p(), x.p(), x.p());
        c.eq(key, x.bytes(), z, what + " of a buffer with itself, in place");
        if (!x.ok() || !o.ok()) c.fail("xor-overrun", "%s (same inputs) wrote outside its output", what.c_str());
    }
}
// every size up to 600, then sizes around multiples of the widest step
static constexpr std::array<size_t, 19> BIG = {639, 640, 641, 767, 768, 769, 831, 1000, 1023, 1024, 1025, 1151, 1279, 1535, 1536, 1537, 2047, 2048, 4097};
typedef void (*XF)(void*, const void*, const void*);
template <size_t N>
static void xt(void* o, const void* a, const void* b)
{
    memory_utils::memxor<N>(o, a, b);
}
template <size_t... I>
static constexpr std::array<XF, sizeof...(I)> small_tab(std::index_sequence<I...>) { return {xt<I>...}; }
template <size_t... I>
static constexpr std::array<XF, sizeof...(I)> big_tab(std::index_sequence<I...>) { return {xt<BIG[I]>...}; }
static const auto SM = small_tab(std::make_index_sequence<601>());
static const auto BG = big_tab(std::make_index_sequence<BIG.size()>());

VF_CASE("C11", "memxor<SIZE>", (601 + 19) * 12, 0.5, 20, [](Ctx& c) {
    size_t k = c.idx % (601 + BIG.size());
    size_t n = k < 601 ? k : BIG[k - 601];
    XF     f = k < 601 ? SM[k] : BG[k - 601];
    c.in(n);
    c.sample(fmt("memxor<%zu>, four aliasings", n));
    c.tag("compile-time sizes");
    xor_all(c, "memxor", n, fmt("memxor<%zu>", n), f);
});
VF_CASE("C11", "memxor_n", 20000, 0.5, 20, [](Ctx& c) {
    size_t n = c.idx < 1600 ? c.idx : c.r.len(c.r.chance(1, 60) ? 70000 : 5000, 512);
    c.in(n);
    c.sample(fmt("memxor_n of %zu bytes, four aliasings", n));
    c.tag("run-time sizes");
    xor_all(c, "memxor_n", n, fmt("memxor_n of %zu bytes", n), [&](u8* o, const u8* a, const u8* b) { memory_utils::memxor_n(o, a, b, n); });
});
VF_CASE("C11", "memxor_n-scales", 72, 0.3, 12, [](Ctx& c) {
    size_t n = c.r.scale(c.idx, 12, 23);
    c.in(n);
    c.tag("long runs");
    xor_all(c, "memxor_n", n, fmt("memxor_n of %zu bytes", n), [&](u8* o, const u8* a, const u8* b) { memory_utils::memxor_n(o, a, b, n); });
}, 120);
static void internal_kernels(Ctx& c)
{
#define X(NS, S) xor_all(c, "memxor-internal", S, #NS "memxor" #S, [](u8* o, const u8* a, const u8* b) { memory_utils::internal::NS memxor##S(o, a, b); });
    X(, 1) X(, 2) X(, 4) X(, 8)
#ifdef CPU_FLAG_SSE2
    X(sse2::, 16) X(sse2::, 32) X(sse2::, 64) X(sse2::, 128)
    c.tag("SSE2 kernels");
#endif
#ifdef CPU_FLAG_AVX2
    X(avx2::, 32) X(avx2::, 64) X(avx2::, 128) X(avx2::, 256) X(avx2::, 512)
    c.tag("AVX2 kernels");
#endif
#undef X
}
VF_CASE("C11", "memxor-internal", 400, 0.5, 20, internal_kernels);
static u64 ref_load(const u8* p, int w, bool be)
{
    u64 v = 0;
    for (int i = 0; i < w; i++) v = v << 8 | p[be ? i : w - 1 - i];
    return v;
}
static u64 edge64(Ctx& c)
{
    switch (c.r.below(5))
    {
    case 0: return (u64)1 << c.r.below(64);
    case 1: return ~((u64)1 << c.r.below(64));
    case 2: return 0x0102030405060708ull << c.r.below(2);
    case 3: return (u64)0xff << (8 * c.r.below(8));
    default: return c.r.next();
    }
}
static void endian(Ctx& c)
{
    using namespace memory_utils;
    u64    v = edge64(c);
    size_t o = c.idx % 24;
    c.in(v), c.in(o);
    c.sample(fmt("value %016llx at offset %zu", (unsigned long long)v, o));
    auto one = [&](const char* nm, int w, bool be, auto ld, auto stf) {
        Bytes in(w);
        for (int i = 0; i < w; i++) in[i] = (u8)(v >> (8 * (be ? w - 1 - i : i)));
        Buf b(in, o), d(w, o);
        u64 m = w == 8 ? ~(u64)0 : ((u64)1 << (8 * w)) - 1;
        u64 g = ld(b.p());
        c.out(g);
        if (g != (v & m) || ref_load(b.p(), w, be) != (v & m))
            c.fail(fmt("load%d_%s", 8 * w, be ? "be" : "le").c_str(), "load%d_%s of %s gave %llx", 8 * w, be ? "be" : "le", hex(in).c_str(), (unsigned long long)g);
        stf(d.p(), v);
        c.eq(fmt("store%d_%s", 8 * w, be ? "be" : "le").c_str(), d.bytes(), in, fmt("store%d_%s", 8 * w, be ? "be" : "le"));
        if (!d.ok() || b.bytes() != in || !b.ok()) c.fail("endian-overrun", "store%d_%s wrote outside its %d bytes", 8 * w, be ? "be" : "le", w);
        (void)nm;
    };
#define E(W, B, BE, T) one(#W #B, W / 8, BE, [](const void* p) -> u64 { return load##W##_##B(p); }, [](void* p, u64 x) { store##W##_##B(p, (T)x); });
    E(8, le, false, std::uint8_t) E(16, le, false, std::uint16_t) E(32, le, false, std::uint32_t) E(64, le, false, std::uint64_t)
    E(8, be, true, std::uint8_t) E(16, be, true, std::uint16_t) E(32, be, true, std::uint32_t) E(64, be, true, std::uint64_t)
#undef E
}
VF_CASE("C11", "endian", 40000, 0.3, 20, endian);
// big-endian increment of the last `w` of n bytes
static Bytes inc(Bytes b, size_t w)
{
    for (size_t i = 0; i < w; i++)
        if (++b[b.size() - 1 - i]) break;
    return b;
}
template <size_t N>
static void ctr(Ctx& c)
{
    Bytes  a = c.r.ebytes(N);
    size_t k = c.r.below(N + 1); // k trailing ff bytes: the carry runs k bytes
    for (size_t i = 0; i < k; i++) a[N - 1 - i] = 0xff;
    if (k < N && c.r.chance(1, 2)) a[N - 1 - k] = (u8)(c.r.chance(1, 2) ? 0xfe : 0x7f);
    c.in(a), c.in(k);
    if (k == N) c.tag("counter wraps to zero");
    Bytes e = inc(a, N);
    Buf   x(a, c.r.below(9)), o(N, c.r.below(9));
    block_cipher_mode::internal::ctr_inc<N>(o, x);
    c.eq("ctr_inc", o.bytes(), e, fmt("ctr_inc<%zu> of %s", N, hex(a).c_str()));
    if (x.bytes() != a || !o.ok()) c.fail("ctr-overrun", "ctr_inc<%zu> wrote outside its output", N);
    block_cipher_mode::internal::ctr_inc<N>(x, x);
    c.eq("ctr_inc", x.bytes(), e, fmt("ctr_inc<%zu> in place of %s", N, hex(a).c_str()));
    if (!x.ok()) c.fail("ctr-overrun", "ctr_inc<%zu> wrote outside its output", N);
    c.out(e);
}
VF_CASE("C11", "counters", 12000, 0.4, 20, [](Ctx& c) {
    ctr<16>(c), ctr<8>(c), ctr<1>(c), ctr<4>(c), ctr<5>(c), ctr<24>(c), ctr<32>(c);
    Bytes a = c.r.ebytes(16);
    size_t k = c.r.below(17);
    for (size_t i = 0; i < k; i++) a[15 - i] = 0xff;
    Bytes e = inc(a, 4);
    Buf   x(a, c.r.below(9)), o(16, c.r.below(9));
    block_cipher_mode::internal::gctr_inc(o, x);
    c.eq("gctr_inc", o.bytes(), e, "gctr_inc of " + hex(a));
    if (x.bytes() != a || !o.ok()) c.fail("ctr-overrun", "gctr_inc wrote outside its output");
    block_cipher_mode::internal::gctr_inc(x, x);
    c.eq("gctr_inc", x.bytes(), e, "gctr_inc in place of " + hex(a));
    if (!x.ok()) c.fail("ctr-overrun", "gctr_inc wrote outside its output");
    if (k >= 4) c.tag("32-bit counter wraps");
    c.sample("counter with trailing ff bytes, seven block sizes and the 32-bit GCM counter");
});
VF_REQ("C11", "compile-time sizes", "run-time sizes", "SSE2 kernels", "AVX2 kernels", "counter wraps to zero", "32-bit counter wraps");
VF_MAIN
