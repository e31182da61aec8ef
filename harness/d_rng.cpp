// Random generators (C28). The CPU instructions, std::rand and
// std::random_device are replaced below the library by scripted sources that
// record every draw and fail on demand.
extern "C" int vf_step32_rand(unsigned int*);
extern "C" int vf_step64_rand(unsigned long long*);
extern "C" int vf_step32_seed(unsigned int*);
extern "C" int vf_step64_seed(unsigned long long*);
#ifdef CPU_FLAG_RDRAND
#define __builtin_ia32_rdrand32_step vf_step32_rand
#define __builtin_ia32_rdrand64_step vf_step64_rand
#define __builtin_ia32_rdseed_si_step vf_step32_seed
#define __builtin_ia32_rdseed_di_step vf_step64_seed
#define __builtin_ia32_rdseed32_step vf_step32_seed
#define __builtin_ia32_rdseed64_step vf_step64_seed
#include <immintrin.h>
#endif
#include "vf.h"
#include <gmlib/rng/cstd_rng.h>
#include <gmlib/rng/std_rng.h>
#ifdef CPU_FLAG_RDRAND
#include <gmlib/rng/hardware_rng/rdrand32_rng.h>
#include <gmlib/rng/hardware_rng/rdrand64_rng.h>
#include <gmlib/rng/hardware_rng/rdseed32_rng.h>
#include <gmlib/rng/hardware_rng/rdseed64_rng.h>
#endif
#include <memory>
#include <stdexcept>
using namespace vf;

// ---- the scripted source ----
struct Source
{
    // 0: scripted, 1: the real instruction
    bool              real = false;
    Rnd               vals{0};
    std::vector<unsigned> fails; // failures before each success (missing = 0)
    size_t            word = 0;  // successful words so far
    unsigned          run  = 0;  // failures so far before the current word
    size_t            calls = 0, longest = 0;
    int               pin = -1;  // every byte of the source has this value
    bool              always_fail = false;
    Bytes             given;     // bytes of the words supplied, in order
    int               step(void* p, size_t n)
    {
        calls++;
        unsigned f = word < fails.size() ? fails[word] : 0;
        if (always_fail || run < f)
        {
            run++;
            longest = std::max<size_t>(longest, run);
            std::memset(p, 0, n); // what the instruction does
            return 0;
        }
        Bytes b = vals.bytes(n);
        if (pin >= 0) b.assign(n, (u8)pin);
        std::memcpy(p, b.data(), n);
        given.insert(given.end(), b.begin(), b.end());
        run = 0, word++;
        return 1;
    }
};
static Source* g_src;
static const char* g_kind; // which instruction is expected
static bool g_wrong;
template <class T>
static int step(T* p, const char* kind)
{
    if (!g_src) { *p = 0; g_wrong = true; return 0; }
    if (std::strcmp(kind, g_kind)) g_wrong = true;
    return g_src->step(p, sizeof *p);
}
extern "C" int vf_step32_rand(unsigned int* p)
{
    if (g_src && g_src->real)
    {
        unsigned char ok;
        g_src->calls++;
        __asm__ volatile("rdrand %0; setc %1" : "=r"(*p), "=qm"(ok)::"cc");
        return ok;
    }
    return step(p, "rdrand32");
}
extern "C" int vf_step64_rand(unsigned long long* p)
{
    if (g_src && g_src->real)
    {
        unsigned char ok;
        g_src->calls++;
        __asm__ volatile("rdrand %0; setc %1" : "=r"(*p), "=qm"(ok)::"cc");
        return ok;
    }
    return step(p, "rdrand64");
}
extern "C" int vf_step32_seed(unsigned int* p) { return step(p, "rdseed32"); }
extern "C" int vf_step64_seed(unsigned long long* p) { return step(p, "rdseed64"); }

extern "C" int rand(void) noexcept
{
    if (!g_src) return 4;
    unsigned v;
    g_src->calls++;
    Bytes b = g_src->vals.bytes(4);
    if (g_src->pin >= 0) b.assign(4, (u8)g_src->pin);
    std::memcpy(&v, b.data(), 4);
    g_src->given.push_back(b[0]);
    return (int)(v & 0x7fffffff);
}
extern "C" void srand(unsigned) noexcept {}
struct DeviceFailure : std::runtime_error
{
    DeviceFailure() : std::runtime_error("random device failure") {}
};
static long g_dev_fail = -1;
std::random_device::result_type std::random_device::_M_getval()
{
    if (!g_src) return 4;
    if (g_dev_fail >= 0 && (long)g_src->calls == g_dev_fail) { g_src->calls++; throw DeviceFailure(); }
    unsigned v;
    g_src->calls++;
    Bytes b = g_src->vals.bytes(4);
    if (g_src->pin >= 0) b.assign(4, (u8)g_src->pin);
    std::memcpy(&v, b.data(), 4);
    g_src->given.push_back(b[0]);
    return v;
}

struct Guard
{
    Source s;
    explicit Guard(u64 seed) { s.vals = Rnd(seed); g_src = &s; g_wrong = false; }
    ~Guard() { g_src = nullptr; }
};

struct Pod3 { u8 a, b, c; };
struct Pod12 { u32 a, b, c; };
template <class T>
static void typed(Ctx& c, rng::Rng& g, Source& s, size_t w, const std::string& nm)
{
    size_t before = s.given.size();
    T      v      = g.rand<T>();
    Bytes  e(s.given.begin() + (long)before, s.given.end());
    if (e.size() < sizeof(T) || e.size() >= sizeof(T) + w)
        c.fail("typed-draws", "%s rand<%zu bytes> took %zu source bytes", nm.c_str(), sizeof(T), e.size());
    else
        c.eq("typed-value", &v, e.data(), sizeof(T), nm + " rand<T>");
    c.tag("typed draw");
}
static void typed_all(Ctx& c, rng::Rng& g, Source& s, size_t w, const std::string& nm)
{
    switch (c.r.below(6))
    {
    case 0: typed<u8>(c, g, s, w, nm); break;
    case 1: typed<std::uint16_t>(c, g, s, w, nm); break;
    case 2: typed<u32>(c, g, s, w, nm); break;
    case 3: typed<u64>(c, g, s, w, nm); break;
    case 4: typed<Pod3>(c, g, s, w, nm); break;
    default: typed<Pod12>(c, g, s, w, nm); break;
    }
}

// ---- software generators: every byte written once, in order, none outside
static void soft(Ctx& c, bool dev)
{
    Guard gd(c.r.next());
    if (c.r.chance(1, 4)) gd.s.pin = (int)c.r.below(256);
    std::unique_ptr<rng::Rng> g;
    if (dev) g.reset(new rng::StdRng());
    else g.reset(new rng::CstdRng());
    gd.s.given.clear(), gd.s.calls = 0;
    const char* nm = dev ? "StdRng" : "CstdRng";
    if (!g->name() || !*g->name()) c.fail("name", "%s has no name", nm);
    for (int k = 0; k < 4; k++)
    {
        size_t n = c.idx < 80 ? (size_t)(c.idx / 2) + (size_t)k : c.r.len(c.r.chance(1, 20) ? 70000 : 300, 16);
        size_t off = c.r.below(16);
        Buf    b(n, off, gd.s.pin >= 0 ? gd.s.pin ^ 0xff : 0xA5);
        c.in(n), c.in(off);
        size_t g0 = gd.s.given.size();
        g->gen(b.p(), n);
        Bytes e(gd.s.given.begin() + (long)g0, gd.s.given.end());
        if (!b.ok()) c.fail("overwrite", "%s gen(%zu) wrote outside the range", nm, n);
        c.eq("bytes", b.bytes(), e, fmt("%s gen(%zu)", nm, n));
        c.in(e);
        if (n == 0) c.tag("empty request");
        if (k == 2) typed_all(c, *g, gd.s, 1, nm);
    }
    c.sample(fmt("%s, %zu bytes from the source", nm, gd.s.given.size()));
    if (dev)
    {
        // the device fails in the middle of a request
        size_t n = 1 + c.r.below(64), at = c.r.below(n);
        Buf    b(n, c.r.below(8));
        g_dev_fail  = (long)(gd.s.calls + at);
        bool thrown = false;
        try { g->gen(b.p(), n); }
        catch (DeviceFailure&) { thrown = true; }
        g_dev_fail = -1;
        if (!thrown) c.fail("device-error-lost", "StdRng: the device failed at byte %zu of %zu, no error", at, n);
        if (!b.ok()) c.fail("overwrite", "StdRng gen(%zu) wrote outside the range", n);
        c.tag("random device failed");
        size_t g0 = gd.s.given.size();
        Buf    b2(n);
        g->gen(b2.p(), n);
        c.eq("after-error", b2.bytes(), Bytes(gd.s.given.begin() + (long)g0, gd.s.given.end()), "StdRng after an error");
    }
    // the source really is used for every byte: no output position is stuck
    {
        size_t n = 1 + c.r.below(40);
        Bytes  orv(n, 0), andv(n, 0xff);
        gd.s.pin = -1;
        for (int k = 0; k < 64; k++)
        {
            Buf b(n);
            g->gen(b.p(), n);
            for (size_t i = 0; i < n; i++) orv[i] |= b.p()[i], andv[i] &= b.p()[i];
        }
        for (size_t i = 0; i < n; i++)
            if (orv[i] != 0xff || andv[i] != 0) c.fail("stuck-bits", "%s: byte %zu of %zu has bits that never change", nm, i, n);
    }
}
VF_CASE("C28", "cstd_rng", 600, 1, 20, [](Ctx& c) { soft(c, false); });
VF_CASE("C28", "std_rng", 600, 1, 20, [](Ctx& c) { soft(c, true); });
VF_CASE("C28", "endurance", 4, 0.5, 8, [](Ctx& c) { // very many requests to one generator
    Guard  gd(c.r.next());
    std::unique_ptr<rng::Rng> g;
    if (c.idx & 1) g.reset(new rng::StdRng());
    else g.reset(new rng::CstdRng());
    gd.s.given.clear();
    Bytes b(400000);
    size_t n = 0;
    for (size_t i = 0; i < 66000; i++)
    {
        size_t k = c.r.below(4);
        g->gen(b.data() + n, k);
        n += k;
    }
    b.resize(n);
    c.in(n);
    c.eq("bytes", b, gd.s.given, fmt("%s, %zu bytes in 66000 requests", g->name(), n));
    c.tag("very many requests");
}, 120);
VF_CASE("C28", "scales", 48, 0.5, 8, [](Ctx& c) { // long requests
    Guard  gd(c.r.next());
    std::unique_ptr<rng::Rng> g;
    if (c.idx & 1) g.reset(new rng::StdRng());
    else g.reset(new rng::CstdRng());
    gd.s.given.clear();
    size_t n = c.r.scale(c.idx / 2, 8, 20);
    Buf    b(n, c.r.below(9));
    c.in(n);
    g->gen(b.p(), n);
    if (!b.ok()) c.fail("overwrite", "%s gen(%zu) wrote outside the range", g->name(), n);
    c.eq("bytes", b.bytes(), gd.s.given, fmt("%s gen(%zu)", g->name(), n));
    c.tag("long request");
}, 120);
VF_REQ("C28", "empty request", "typed draw", "random device failed");

#ifdef CPU_FLAG_RDRAND
template <unsigned R> struct Gens
{
    static rng::Rng* make(unsigned k)
    {
        using namespace rng::hardware_rng;
        switch (k)
        {
        case 0: return new RdrandRng_32<R>();
        case 1: return new RdrandRng_64<R>();
        case 2: return new RdseedRng_32<R>();
        default: return new RdseedRng_64<R>();
        }
    }
};
static rng::Rng* make_default(unsigned k)
{
    using namespace rng::hardware_rng;
    switch (k)
    {
    case 0: return new RdrandRng_32<>();
    case 1: return new RdrandRng_64<>();
    case 2: return new RdseedRng_32<>();
    default: return new RdseedRng_64<>();
    }
}
static const char* KIND[4] = {"rdrand32", "rdrand64", "rdseed32", "rdseed64"};

VF_CASE("C28", "hardware", 6000, 0.5, 30, [](Ctx& c) {
    unsigned k = (unsigned)(c.idx & 3), w = k & 1 ? 8 : 4;
    static const unsigned RS[8] = {0, 1, 2, 3, 7, 10, 10, 64};
    unsigned ri = (unsigned)c.r.below(8), R = RS[ri];
    Guard    gd(c.r.next());
    g_kind = KIND[k];
    std::unique_ptr<rng::Rng> g;
    switch (ri)
    {
    case 0: g.reset(Gens<0>::make(k)); break;
    case 1: g.reset(Gens<1>::make(k)); break;
    case 2: g.reset(Gens<2>::make(k)); break;
    case 3: g.reset(Gens<3>::make(k)); break;
    case 4: g.reset(Gens<7>::make(k)); break;
    case 5: g.reset(Gens<10>::make(k)); break;
    case 6: g.reset(make_default(k)); break;
    default: g.reset(Gens<64>::make(k)); break;
    }
    if (!g->name() || !*g->name()) c.fail("name", "%s has no name", KIND[k]);
    std::string nm = fmt("%s retries=%u", KIND[k], R);
    int         steps = 1 + (int)c.r.below(4);
    for (int s = 0; s < steps; s++)
    {
        Source& S = gd.s;
        size_t  n = c.idx < 400 ? (size_t)(c.idx / 4) : c.r.chance(1, 300) ? c.r.scale(c.r.next() % 8, 11, 18) : c.r.len(c.r.chance(1, 40) ? 5000 : 120, 8);
        size_t  off = c.r.below(16), words = (n + w - 1) / w;
        // the failures before each word
        S.word = 0, S.run = 0, S.calls = 0, S.longest = 0;
        S.given.clear(), S.fails.clear();
        S.pin = c.r.chance(1, 6) ? (int)c.r.below(256) : -1;
        int  style = (int)c.r.below(5);
        long bad   = -1;
        for (size_t i = 0; i < words; i++)
        {
            unsigned f = 0;
            if (style == 1) f = R;                                   // always at the limit
            else if (style == 2) f = (unsigned)c.r.below(R + 1);
            else if (style >= 3) f = c.r.chance(1, 3) ? (unsigned)c.r.below(R + 1) : 0;
            S.fails.push_back(f);
        }
        if (style >= 4 && words)
        {
            bad = (long)(c.r.chance(1, 2) ? words - 1 : c.r.below(words));
            S.fails[(size_t)bad] = R + 1 + (unsigned)c.r.pick({0u, 0u, 0u, 1u, 5u, 1000000u});
        }
        size_t want_calls = 0;
        for (size_t i = 0; i < words; i++)
        {
            if ((long)i == bad) { want_calls += R + 1; break; }
            want_calls += S.fails[i] + 1;
        }
        int filler = S.pin >= 0 ? S.pin ^ 0xff : 0xA5;
        Buf b(n, off, filler);
        c.in(k), c.in(R), c.in(n), c.in(off);
        for (auto f : S.fails) c.in(f);
        bool thrown = false;
        try { g->gen(b.p(), n); }
        catch (std::exception&) { thrown = true; }
        if (!b.ok()) c.fail("overwrite", "%s gen(%zu) wrote outside the range", nm.c_str(), n);
        if (g_wrong) c.fail("wrong-source", "%s draws from another instruction", nm.c_str());
        if (bad >= 0)
        {
            if (!thrown)
                c.fail("failure-hidden", "%s gen(%zu): %u failures in a row at word %ld, no error", nm.c_str(), n, S.fails[(size_t)bad], bad);
            else if (S.calls > want_calls + 0)
                c.fail("late-error", "%s gen(%zu): %zu draws before the error, %zu suffice", nm.c_str(), n, S.calls, want_calls);
            c.tag("run of failures longer than the retries");
            if (R == 0) c.tag("no retries configured");
            if (bad == (long)words - 1 && n % w) c.tag("failure at the tail word");
            if (bad > 0) c.tag("failure after some words");
            g->name();
        }
        else
        {
            if (thrown)
                c.fail("early-error", "%s gen(%zu): error after a run of %zu failures", nm.c_str(), n, S.longest);
            else
            {
                if (S.given.size() != words * w)
                    c.fail("draws", "%s gen(%zu) took %zu source bytes", nm.c_str(), n, S.given.size());
                else
                    c.eq("bytes", b.p(), S.given.data(), n, fmt("%s gen(%zu)", nm.c_str(), n));
                if (S.calls != want_calls)
                    c.fail("draws", "%s gen(%zu): %zu source calls, %zu needed", nm.c_str(), n, S.calls, want_calls);
            }
            if (S.longest == R && R) c.tag("run of failures equal to the retries");
            if (n % w) c.tag("tail word");
            if (n < w && n) c.tag("shorter than one word");
        }
    }
    // an object that reported an error works again when the source recovers
    gd.s.fails.clear(), gd.s.word = 0, gd.s.run = 0, gd.s.given.clear();
    typed_all(c, *g, gd.s, w, nm);
    c.sample(nm);
});
VF_CASE("C28", "dead_source", 400, 0.5, 10, [](Ctx& c) {
    unsigned k = (unsigned)(c.idx & 3);
    Guard    gd(c.r.next());
    g_kind = KIND[k];
    gd.s.always_fail = true;
    std::unique_ptr<rng::Rng> g(c.r.chance(1, 2) ? make_default(k) : Gens<3>::make(k));
    size_t n = 1 + c.r.below(60);
    bool   thrown = false;
    Buf    b(n, c.r.below(8));
    c.in(k), c.in(n);
    try
    {
        if (c.r.chance(1, 2)) g->gen(b.p(), n);
        else g->rand<u64>();
    }
    catch (std::exception&) { thrown = true; }
    if (!thrown) c.fail("failure-hidden", "%s: a dead source gives no error", KIND[k]);
    if (!b.ok()) c.fail("overwrite", "%s wrote outside the range", KIND[k]);
    // an empty request needs no source
    c.tag("dead source");
});
// the real instruction behind the same code
VF_CASE("C28", "real_rdrand", 100, 0.5, 10, [](Ctx& c) {
    Guard gd(1);
    gd.s.real = true;
    unsigned k = (unsigned)(c.idx & 1);
    std::unique_ptr<rng::Rng> g(make_default(k));
    size_t n = 1 + c.r.below(100), off = c.r.below(8);
    Bytes  orv(n, 0), andv(n, 0xff);
    c.in(n), c.in(off), c.in(k);
    for (int i = 0; i < 64; i++)
    {
        Buf b(n, off);
        g->gen(b.p(), n);
        if (!b.ok()) c.fail("overwrite", "%s wrote outside the range", KIND[k]);
        for (size_t j = 0; j < n; j++) orv[j] |= b.p()[j], andv[j] &= b.p()[j];
    }
    for (size_t j = 0; j < n; j++)
        if (orv[j] != 0xff || andv[j] != 0) c.fail("stuck-bits", "%s: byte %zu of %zu has bits that never change", KIND[k], j, n);
    c.tag("real instruction");
});
VF_REQ("C28", "run of failures longer than the retries", "no retries configured", "failure at the tail word",
       "failure after some words", "run of failures equal to the retries", "tail word", "shorter than one word",
       "dead source", "real instruction");
#endif
VF_MAIN
