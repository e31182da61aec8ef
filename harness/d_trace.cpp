// C37: operations leave nothing behind in the process: no memory, descriptors,
// threads, mappings or changed settings of the process, also when the random
// source they were given throws; and they do not depend on the
// floating-point settings they find.
#include "ops.h"
#include <cerrno>
#include <cfenv>
#include <clocale>
#include <csignal>
#include <cstdlib>
#include <dirent.h>
#include <fcntl.h>
#include <gmlib/rng/cstd_rng.h>
#include <gmlib/rng/std_rng.h>
#include <immintrin.h>
#include <locale>
#include <malloc.h>
#include <new>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#if defined(CPU_FLAG_RDRAND)
#include <gmlib/rng/hardware_rng/rdrand32_rng.h>
#include <gmlib/rng/hardware_rng/rdrand64_rng.h>
#endif
#if defined(CPU_FLAG_RDSEED)
#include <gmlib/rng/hardware_rng/rdseed32_rng.h>
#include <gmlib/rng/hardware_rng/rdseed64_rng.h>
#endif
using namespace vf;
using namespace ops;
typedef std::uint16_t u16;

struct Fpu // the x87/MMX state and the SSE control register
{
    u16 cw, tag;
    u32 mx;
};
static Fpu fpu()
{
    struct { u16 cw, r0, sw, r1, tag, r2; u32 rest[4]; } e;
    __asm__ volatile("fnstenv %0\n\tfldenv %0" : "=m"(e));
    return Fpu{e.cw, e.tag, (u32)_mm_getcsr() & ~63u}; // without the sticky flags
}
static int count_dir(const char* d)
{
    int  n = 0;
    DIR* p = opendir(d);
    if (!p) return -1;
    while (readdir(p)) n++;
    closedir(p);
    return n;
}
struct Settings // of the process; every member is compared
{
    std::string text;
    void add(const char* k, const std::string& v) { text += k, text += '=', text += v, text += '\n'; }
    Settings()
    {
        Fpu f = fpu();
        add("x87 control word", fmt("%04x", f.cw)), add("x87 tag word", fmt("%04x", f.tag)), add("MXCSR", fmt("%04x", f.mx));
        u64 fl;
        __asm__ volatile("pushfq\n\tpopq %0" : "=r"(fl));
        add("direction and alignment flags", fmt("%llx", (unsigned long long)(fl & 0x40400)));
        add("descriptors", fmt("%d", count_dir("/proc/self/fd")));
        add("threads", fmt("%d", count_dir("/proc/self/task")));
        sigset_t m;
        sigprocmask(SIG_BLOCK, nullptr, &m);
        std::string s;
        for (int i = 1; i < 65; i++)
        {
            struct sigaction a;
            s += sigismember(&m, i) == 1 ? 'b' : '.';
            if (!sigaction(i, nullptr, &a)) s += fmt("%p", (void*)a.sa_handler);
        }
        add("signals", s);
        add("locale", std::setlocale(LC_ALL, nullptr)), add("C++ locale", std::locale().name());
        add("terminate and new handlers", fmt("%p %p", (void*)std::get_terminate(), (void*)std::get_new_handler()));
        mode_t u = umask(0);
        umask(u);
        add("umask", fmt("%o", (unsigned)u));
        char b[4096];
        add("directory", getcwd(b, sizeof b) ? b : "?");
        u64 env = 0;
        for (char** e = environ; e && *e; e++) env = hash_bytes(*e, std::strlen(*e), env);
        add("environment", fmt("%llx", (unsigned long long)env));
        for (int r : {RLIMIT_STACK, RLIMIT_DATA, RLIMIT_NOFILE, RLIMIT_CORE})
        {
            rlimit l;
            getrlimit((__rlimit_resource_t)r, &l);
            add("limit", fmt("%llx %llx", (unsigned long long)l.rlim_cur, (unsigned long long)l.rlim_max));
        }
        add("exceptions in flight", fmt("%d", std::uncaught_exceptions()));
    }
    std::string differs(const Settings& b) const
    {
        size_t i = 0, l = 0;
        while (i < text.size() && i < b.text.size() && text[i] == b.text[i])
            if (text[i++] == '\n') l = i;
        if (i == text.size() && i == b.text.size()) return "";
        return text.substr(l, text.find('\n', l) - l) + " became " + b.text.substr(l, b.text.find('\n', l) - l);
    }
};
// the allocator, counting what is held
static size_t held, allocations;
extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void  __libc_free(void*);
static void* took(void* p)
{
    if (p) __atomic_add_fetch(&held, malloc_usable_size(p), __ATOMIC_RELAXED), __atomic_add_fetch(&allocations, 1, __ATOMIC_RELAXED);
    return p;
}
static void gave(void* p)
{
    if (p) __atomic_sub_fetch(&held, malloc_usable_size(p), __ATOMIC_RELAXED);
}
void* malloc(size_t n) { return took(__libc_malloc(n)); }
void* calloc(size_t a, size_t b) { return took(__libc_calloc(a, b)); }
void* memalign(size_t a, size_t n) { return took(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) { return took(__libc_memalign(a, n)); }
int   posix_memalign(void** p, size_t a, size_t n)
{
    *p = took(__libc_memalign(a, n));
    return *p ? 0 : ENOMEM;
}
void* realloc(void* p, size_t n)
{
    gave(p);
    void* q = __libc_realloc(p, n);
    if (q) return took(q);
    if (n) took(p);
    return q;
}
void free(void* p)
{
    gave(p);
    __libc_free(p);
}
}
static size_t heap() { return __atomic_load_n(&held, __ATOMIC_RELAXED); }
static size_t mappings()
{
    int    f = open("/proc/self/maps", O_RDONLY | O_CLOEXEC);
    char   b[4096];
    size_t n = 0;
    for (ssize_t k; f >= 0 && (k = read(f, b, sizeof b)) > 0;) n += (size_t)std::count(b, b + k, '\n');
    if (f >= 0) close(f);
    return n;
}

// A job is repeated; what it holds must not grow with the repetitions. `f`
// runs it once, and nothing of the harness survives it.
static void repeat(Ctx& c, const std::string& what, unsigned times, const std::function<void()>& f)
{
    f(), f(); // what is made once may stay
    Settings a;
    size_t   h0 = 0, m0 = 0, h1 = 0, m1 = 0;
    m0 = mappings(), h0 = heap();
    for (unsigned i = 0; i < times; i++) f();
    h1 = heap(), m1 = mappings();
    Settings b;
    size_t   g = h1 > h0 ? h1 - h0 : 0;
    c.tag("balances of memory taken and given back");
    if (!allocations) c.fail("monitor", "the allocator is not seen");
    if (g) // seen again, to be sure
    {
        h0 = heap();
        for (unsigned i = 0; i < times; i++) f();
        h1 = heap();
        if (h1 > h0) c.fail("leak:memory", "%s, done %u times, keeps %zu bytes, done again keeps %zu more", what.c_str(), times, g, h1 - h0);
    }
    if (m1 > m0 + times / 2 + 1) c.fail("leak:mapping", "%s, done %u times, leaves %zu new mappings", what.c_str(), times, m1 - m0);
    std::string d = a.differs(b);
    if (!d.empty()) c.fail("settings", "%s: %s", what.c_str(), d.c_str());
}

VF_CASE("C37", "repeat", 650, 1, 20, [](Ctx& c) {
    const Op& o     = all()[c.idx % all().size()];
    u64       seed  = c.r.next();
    unsigned  times = 2 + (unsigned)c.r.below(5);
    c.in(hash_str(o.name)), c.in(seed), c.in((u64)times);
    hook() = nullptr;
    repeat(c, fmt("operation %s", o.name), times, [&] { ops::run(o, seed, nullptr); });
    c.tag(std::string("repeated ") + o.name);
});

// The random source throws something of its own at one point.
struct Stop
{
    u64 v;
};
VF_CASE("C37", "throw", 480, 1, 20, [](Ctx& c) {
    static const char* const names[] = {"sm2-sign", "sm2-crypt", "sm2-public", "sm9"};
    const char* nm = names[c.idx % 4];
    const Op*   o  = nullptr;
    for (auto& x : all()) if (!std::strcmp(x.name, nm)) o = &x;
    u64    seed = c.r.next();
    size_t points = 0;
    hook() = [&] { points += in_source(); };
    Sink ref = ops::run(*o, seed, nullptr);
    hook() = nullptr;
    if (!points) { c.nontrivial = false; return; }
    size_t at = c.r.below(points);
    c.in(hash_str(nm)), c.in(seed), c.in((u64)at);
    c.sample(fmt("operation %s, the %zu-th of %zu calls to the random source throws", nm, at, points));
    size_t thrown = 0, caught = 0;
    repeat(c, fmt("operation %s stopped by an exception of its random source", nm), 3, [&] {
        size_t i = 0;
        hook() = [&] { if (in_source() && i++ == at) { thrown++; throw Stop{seed}; } };
        try { ops::run(*o, seed, nullptr); }
        catch (const Stop& s) { caught += s.v == seed; }
        catch (const std::exception& e) { c.fail("exception-changed", "operation %s turned an exception of its random source into \"%s\"", nm, e.what()); }
        hook() = nullptr;
    });
    // one reported, exactly as thrown
    if (caught != thrown) c.fail("exception-lost", "operation %s: %zu exceptions thrown by the random source, %zu arrived", nm, thrown, caught);
    c.tag(std::string("exceptions passed through ") + nm, caught);
    Sink s = ops::run(*o, seed, nullptr); // and no trace of them
    if (s.h != ref.h || s.bytes != ref.bytes) c.fail("after-exception", "operation %s gives another result after operations stopped by exceptions", nm);
});

// Any floating-point settings: the results are the same, the settings stay.
VF_CASE("C37", "fpu", 910, 1, 20, [](Ctx& c) {
    const Op& o    = all()[c.idx % all().size()];
    u64       seed = c.r.next();
    hook() = nullptr;
    Sink ref = ops::run(o, seed, nullptr);
    u32  mx  = 0x1f80 | (u32)c.r.below(4) << 13 | (c.r.chance(1, 2) ? 0x8040 : 0);
    u16  cw  = (u16)(0x007f | c.r.pick({0, 2, 3}) << 8 | c.r.below(4) << 10);
    c.in(hash_str(o.name)), c.in(seed), c.in((u64)mx), c.in((u64)cw);
    c.sample(fmt("operation %s with MXCSR %04x, x87 control word %04x", o.name, mx, cw));
    u32 mx0 = _mm_getcsr();
    u16 cw0;
    __asm__ volatile("fnstcw %0" : "=m"(cw0));
    _mm_setcsr(mx);
    __asm__ volatile("fldcw %0" ::"m"(cw));
    Sink s = ops::run(o, seed, nullptr);
    Fpu  f = fpu();
    _mm_setcsr(mx0);
    __asm__ volatile("fldcw %0" ::"m"(cw0));
    if (s.h != ref.h || s.bytes != ref.bytes) c.fail("fpu:result", "operation %s depends on the floating-point settings", o.name);
    if (f.mx != mx || f.cw != cw) c.fail("fpu:settings", "operation %s changed the floating-point settings", o.name);
    if (f.tag != 0xffff) c.fail("fpu:x87", "operation %s left x87/MMX registers in use (tag word %04x): floating-point arithmetic of the caller fails", o.name, f.tag);
    c.tag(std::string("floating-point settings kept by ") + o.name);
});

// Random sources: made, used and destroyed.
static rng::Rng* source(unsigned i)
{
    switch (i)
    {
    case 0: return new rng::StdRng();
    case 1: return new rng::CstdRng();
#if defined(CPU_FLAG_RDRAND)
    case 2: return new rng::hardware_rng::RdrandRng_32<>();
    case 3: return new rng::hardware_rng::RdrandRng_64<>();
#endif
#if defined(CPU_FLAG_RDSEED)
    case 4: return new rng::hardware_rng::RdseedRng_32<>();
    case 5: return new rng::hardware_rng::RdseedRng_64<>();
#endif
    default: return nullptr;
    }
}
VF_CASE("C37", "sources", 120, 1, 20, [](Ctx& c) {
    std::unique_ptr<rng::Rng> g(source((unsigned)(c.idx % 6)));
    if (!g) { c.nontrivial = false; return; }
    size_t n = c.r.below(100);
    c.in(c.idx), c.in((u64)n);
    auto use = [&](rng::Rng& x) {
        u8 t[100];
        try { x.gen(t, n); } catch (const std::exception&) {} // the hardware may be busy
    };
    std::string nm = g->name();
    repeat(c, "drawing from " + nm, 50, [&] { use(*g); });
    repeat(c, "making and destroying " + nm, 50, [&] {
        std::unique_ptr<rng::Rng> x(source((unsigned)(c.idx % 6)));
        use(*x);
    });
    c.tag("drawn from " + nm);
});
VF_REQ("C37", "repeated sm3", "repeated hmac", "repeated ghash", "repeated block", "repeated mode", "repeated memory", "repeated number", "repeated montgomery", "repeated asn1",
       "repeated sm2-sign", "repeated sm2-crypt", "repeated sm2-public", "repeated sm9", "exceptions passed through sm2-sign",
       "exceptions passed through sm2-crypt", "exceptions passed through sm9", "floating-point settings kept by ghash", "floating-point settings kept by mode");
VF_MAIN
