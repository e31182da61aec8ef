// Common runtime of all drivers: deterministic case generation, guarded
// buffers, coverage accounting, failure reporting.
#pragma once
#include <algorithm>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
#endif
#if __has_feature(thread_sanitizer)
#define VF_TSAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define VF_ASAN 1
#endif
#if defined(VF_ASAN) || defined(VF_VALGRIND)
#define VF_EXACT 1 // out-of-bounds accesses are caught by the tool
#endif
#ifdef VF_VALGRIND
#include <valgrind/memcheck.h>
#endif

namespace vf {
typedef std::uint8_t      u8;
typedef std::uint32_t     u32;
typedef std::uint64_t     u64;
typedef unsigned __int128 u128;
typedef std::vector<u8>   Bytes;

inline u64 mix(u64 x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
inline u64 hash_bytes(const void* p, size_t n, u64 h = 0xcbf29ce484222325ull)
{
    const u8* b = (const u8*)p;
    while (n >= 8)
    {
        u64 w;
        std::memcpy(&w, b, 8);
        h = mix(h ^ w);
        b += 8, n -= 8;
    }
    u64 w = 0;
    if (n) std::memcpy(&w, b, n);
    return mix(h ^ w ^ ((u64)n << 56));
}
inline u64 hash_str(const char* s) { return hash_bytes(s, std::strlen(s)); }

// Every bit of a result must be defined.
inline void defined(const void* p, size_t n)
{
#ifdef VF_VALGRIND
    (void)VALGRIND_CHECK_MEM_IS_DEFINED(p, n);
#endif
    (void)p, (void)n;
}
struct Rnd
{
    u64 s;
    u64 group = 0; // what the neighbouring cases have in common (0: nothing)
    unsigned used = 0;
    explicit Rnd(u64 seed = 0) : s(seed) {}
    u64 next()
    {
        s += 0x9E3779B97F4A7C15ull;
        u64 x = s;
        x     = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
        x     = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
        return x ^ (x >> 31);
    }
    u64  below(u64 n) { return n ? (u64)(((u128)next() * n) >> 64) : 0; }
    u64  range(u64 lo, u64 hi) { return lo + below(hi - lo + 1); } // inclusive
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    void fill(void* p, size_t n)
    {
        u8* b = (u8*)p;
        while (n)
        {
            u64    w = next();
            size_t k = n < 8 ? n : 8;
            std::memcpy(b, &w, k);
            b += k, n -= k;
        }
    }
    // mostly fresh bytes; now and then bytes that neighbouring cases use too, or
    // a variation of them (the same ones never twice in a case)
    Bytes bytes(size_t n)
    {
        Bytes b(n);
        if (group && n >= 12 && n <= 300 && chance(1, 4))
        {
            unsigned e = (unsigned)below(3);
            if (!(used >> e & 1))
            {
                used |= 1u << e;
                Rnd o(mix(group + e));
                o.fill(b.data(), n);
                return chance(1, 2) ? b : vary(b);
            }
        }
        fill(b.data(), n);
        return b;
    }
    // what follows `old` on the same object: a fresh value, or one that shares
    // much or all of it
    Bytes renew(const Bytes& old, const Bytes& fresh)
    {
        return old.empty() || chance(1, 2) ? fresh : vary(old);
    }
    Bytes vary(Bytes b)
    {
        switch (below(6))
        {
        case 0: case 1: break;
        case 2: b[below(b.size())] ^= (u8)(1 << below(8)); break;
        case 3: b.back() ^= (u8)(1 + below(255)); break;
        case 4: b[0] ^= (u8)(1 + below(255)); break;
        case 5: for (size_t i = below(b.size()); i < b.size(); i++) b[i] = (u8)next(); break;
        }
        return b;
    }
    template <class T>
    T pick(std::initializer_list<T> l)
    {
        return l.begin()[below(l.size())];
    }
    // byte string with structure: random / constant / sparse / runs of 00,ff
    Bytes ebytes(size_t n)
    {
        Bytes b(n);
        switch (below(6))
        {
        case 0: b.assign(n, 0); break;
        case 1: b.assign(n, 0xff); break;
        case 2:
            for (int i = 0; i < 3 && n; i++) b[below(n)] ^= (u8)(1u << below(8));
            break;
        case 3:
        {
            size_t i = 0;
            while (i < n)
            {
                size_t l = 1 + below(12);
                int    k = (int)below(3);
                for (; l && i < n; l--, i++)
                    b[i] = k == 0 ? 0 : k == 1 ? 0xff : (u8)next();
            }
            break;
        }
        default: return bytes(n);
        }
        return b;
    }
    // length biased to the neighbourhood of multiples of `unit`
    size_t len(size_t max, size_t unit)
    {
        switch (below(8))
        {
        case 0: return below(std::min<size_t>(max, 4) + 1);
        case 1: return below(std::min<size_t>(max, 2 * unit) + 1);
        case 2:
        case 3:
        case 4:
        {
            size_t m = max / unit;
            size_t l = unit * below(m + 1);
            int    d = (int)below(5) - 2;
            if (d < 0 && l < (size_t)-d) return l;
            l += d;
            return l > max ? max : l;
        }
        default: return below(max + 1);
        }
    }
    // a length around a power of two, or around three quarters of one
    size_t scale(u64 idx, int lo, int hi)
    {
        size_t n = (size_t)1 << (lo + idx % (hi - lo + 1));
        if (chance(1, 5)) n -= n / 4;
        return n + below(chance(1, 3) ? 200 : 7) - 3;
    }
    // few pieces: some partial units first, then one long piece, then the rest
    std::vector<size_t> lumps(size_t n, size_t unit)
    {
        std::vector<size_t> v;
        for (int k = (int)below(4); k; k--) v.push_back(std::min(n, (size_t)below(2 * unit + 2))), n -= v.back();
        if (chance(1, 2)) v.push_back(n - std::min(n, (size_t)below(3 * unit))), n -= v.back();
        if (chance(1, 2)) v.push_back(below(n + 1)), n -= v.back();
        v.push_back(n);
        return v;
    }
    // split n into chunks; zero-length chunks allowed
    std::vector<size_t> split(size_t n, size_t unit)
    {
        std::vector<size_t> v;
        int                 style = (int)below(6);
        size_t              left  = n;
        if (style == 0)
        {
            v.push_back(n);
            return v;
        }
        while (left)
        {
            size_t k;
            switch (style)
            {
            case 1: k = 1 + below(3); break;
            case 2: k = unit - 1 + below(3); break;
            case 3: k = below(2 * unit + 2); break;
            case 4: k = len(left, unit); break;
            default: k = below(left + 1); break;
            }
            if (chance(1, 12)) k = 0;
            if (k > left) k = left;
            if (n > 4096 && k < n / 256) k = std::min(left, k + n / 128);
            v.push_back(k);
            left -= k;
        }
        if (chance(1, 4)) v.push_back(0);
        if (chance(1, 8)) v.insert(v.begin(), 0);
        return v;
    }
};

inline std::string hex(const void* p, size_t n)
{
    static const char* d = "0123456789abcdef";
    std::string        s;
    const u8*          b = (const u8*)p;
    for (size_t i = 0; i < n; i++)
    {
        s += d[b[i] >> 4];
        s += d[b[i] & 15];
    }
    return s;
}
inline std::string hex(const Bytes& b) { return hex(b.data(), b.size()); }
inline Bytes       unhex(const char* s)
{
    Bytes b;
    int   hi = -1;
    for (; *s; s++)
    {
        int v = *s >= '0' && *s <= '9'   ? *s - '0'
                : *s >= 'a' && *s <= 'f' ? *s - 'a' + 10
                : *s >= 'A' && *s <= 'F' ? *s - 'A' + 10
                                         : -1;
        if (v < 0) continue;
        if (hi < 0)
            hi = v;
        else
            b.push_back((u8)(hi << 4 | v)), hi = -1;
    }
    return b;
}
inline std::string fmt(const char* f, ...)
{
    char    buf[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

struct Failure
{
    std::string kase, key, detail, cls;
    u64         idx;
};

struct Case;

struct State
{
    std::string                prop, outdir, config;
    u64                        seed = 1, salt = 0;
    double                     scale = 1;
    int                        shard = 0, nshards = 1;
    bool                       thorough = false;
    u64                        evals    = 0;
    std::map<std::string, u64> percase, tags;
    std::unordered_set<u64>    fps;
    std::vector<std::string>   samples;
    std::map<std::string, int> samples_n;
    std::vector<Failure>       fails;
    std::set<std::string>      required;
    std::set<std::string>      failkeys;
    char*                      cur = nullptr; // mmap'ed "current case" record
    FILE*                      transcript = nullptr;
};
inline State& st()
{
    static State s;
    return s;
}

// A case in progress.
// alters b[lo, hi) in several places at once, in ways that a folding, partial or
// order-insensitive comparison would not see; false when nothing changed
inline bool tamper(Rnd& r, Bytes& b, size_t lo, size_t hi, std::string& what)
{
    Bytes  old(b);
    size_t n = hi - lo, i = lo + r.below(n), d = r.chance(2, 3) ? (size_t)1 << r.below(6) : 1 + r.below(n), j = lo + (i - lo + d) % n;
    u8     x = r.chance(1, 2) ? (u8)(1 << r.below(8)) : (u8)(1 + r.below(255));
    if (n < 2) return false;
    switch (r.below(12))
    {
    case 0:
    case 1: b[i] ^= x, b[j] ^= x, what = fmt("bytes %zu and %zu xored with %02x", i, j, x); break;
    case 2: b[i] = (u8)(b[i] + x), b[j] = (u8)(b[j] - x), what = fmt("%02x moved between bytes %zu and %zu", x, i, j); break;
    case 3: std::swap(b[i], b[j]), what = fmt("bytes %zu and %zu exchanged", i, j); break;
    case 4: std::swap_ranges(&b[lo], &b[lo] + n / 2, &b[lo] + n / 2), what = "halves exchanged"; break;
    case 5: std::rotate(&b[lo], &b[lo] + r.below(n), &b[lo] + n), what = "rotated"; break;
    case 6: std::reverse(&b[lo], &b[lo] + n), what = "reversed"; break;
    case 7: std::memset(&b[i], 0, hi - i), what = fmt("zero from byte %zu", i); break;
    case 8: std::memset(&b[lo], r.chance(1, 2) ? 0 : 0xff, i - lo + 1), what = fmt("constant up to byte %zu", i); break;
    case 9: for (size_t k = lo; k < hi; k++) b[k] ^= x; what = fmt("all bytes xored with %02x", x); break;
    case 10:
    { // the same mask in two machine words
        size_t w = n >= 16 ? (r.chance(1, 2) ? 8 : 4) : 1, k = n / w, p = r.below(k), q = r.below(k);
        if (p == q) return false;
        for (size_t t = 0; t < w; t++) { u8 m = (u8)r.next(); b[lo + p * w + t] ^= m, b[lo + q * w + t] ^= m; }
        what = fmt("words %zu and %zu of %zu bytes xored with one mask", p, q, w);
        break;
    }
    default:
    { // two words exchanged
        size_t w = n >= 16 ? (r.chance(1, 2) ? 8 : 4) : 1, k = n / w, p = r.below(k), q = r.below(k);
        std::swap_ranges(&b[lo + p * w], &b[lo + p * w] + w, &b[lo + q * w]), what = fmt("words %zu and %zu of %zu bytes exchanged", p, q, w);
    }
    }
    return b != old;
}
struct Ctx
{
    Rnd         r;
    u64         idx;
    std::string kase;
    u64         fp        = 0;
    bool        nontrivial = true;
    u64         th         = 0; // transcript hash
    bool        failed     = false;
    // configuration-independent record of inputs
    void in(const void* p, size_t n) { fp = hash_bytes(p, n, fp ^ 0x51); }
    void in(const Bytes& b) { in(b.data(), b.size()); }
    void in(u64 v) { fp = mix(fp ^ v); }
    void tag(const std::string& t, u64 n = 1) { st().tags[t] += n; }
    // record of outputs (C32)
    void out(const void* p, size_t n)
    {
        defined(p, n);
        th = hash_bytes(p, n, th ^ 0x77);
    }
    void out(u64 v)
    {
        defined(&v, sizeof v);
        th = mix(th ^ v);
    }
    void out(const Bytes& b)
    {
        out((u64)b.size());
        out(b.data(), b.size());
    }
    void sample(const std::string& s)
    {
        State& S = st();
        if (S.samples_n[kase] < 1 && S.shard == 0)
        {
            S.samples_n[kase]++;
            S.samples.push_back(kase + " #" + std::to_string(idx) + ": " +
                                s.substr(0, 400));
        }
    }
    void fail(const char* key, const char* f, ...)
    {
        char    buf[6000];
        va_list ap;
        va_start(ap, f);
        vsnprintf(buf, sizeof buf, f, ap);
        va_end(ap);
        failed   = true;
        State& S = st();
        if (S.fails.size() < 60 || !S.failkeys.count(key))
        {
            S.failkeys.insert(key);
            if (S.fails.size() < 400)
                S.fails.push_back({kase, key, buf, "", idx});
        }
    }
    bool eq(const char* key, const void* got, const void* exp, size_t n,
            const std::string& what)
    {
        out(got, n);
        if (n == 0 || std::memcmp(got, exp, n) == 0) return true;
        size_t i = 0;
        while (((const u8*)got)[i] == ((const u8*)exp)[i]) i++;
        size_t s = i > 16 ? i - 16 : 0, l = std::min<size_t>(48, n - s);
        fail(key, "%s: byte %zu of %zu differs: got ..%s expected ..%s",
             what.c_str(), i, n, hex((const u8*)got + s, l).c_str(),
             hex((const u8*)exp + s, l).c_str());
        return false;
    }
    bool eq(const char* key, const Bytes& got, const Bytes& exp,
            const std::string& what)
    {
        if (got.size() != exp.size())
        {
            fail(key, "%s: length %zu, expected %zu", what.c_str(), got.size(),
                 exp.size());
            return false;
        }
        return eq(key, got.data(), exp.data(), got.size(), what);
    }
};

typedef std::function<void(Ctx&)> CaseFn;
struct Case
{
    std::string prop, name;
    u64         quick;    // number of cases in the quick tier (release builds)
    double      asan;     // factor for sanitizer builds (0 = skip)
    double      thorough; // factor in the thorough tier
    unsigned    limit_s;  // generous wall limit of one case
    CaseFn      fn;
};
inline std::vector<Case>& cases()
{
    static std::vector<Case> v;
    return v;
}
struct Reg
{
    Reg(const char* prop, const char* name, u64 quick, double asan,
        double thorough, CaseFn fn, unsigned limit_s = 60)
    {
        cases().push_back({prop, name, quick, asan, thorough, limit_s, fn});
    }
};
struct Req
{
    Req(const char* prop, std::initializer_list<const char*> l)
    {
        for (auto t : l) reqs().push_back({prop, t});
    }
    static std::vector<std::pair<std::string, std::string>>& reqs()
    {
        static std::vector<std::pair<std::string, std::string>> v;
        return v;
    }
};

// initial content of output buffers
inline int& bufill()
{
    static int v = 0xA5;
    return v;
}
// under valgrind: output buffers start out as undefined
inline bool& bufundef()
{
    static bool v = false;
    return v;
}
// Exact-size heap buffer. Under ASan the redzones are checked by the
// sanitizer; in other builds guard bytes on both sides are checked by ok().
// `off` shifts the payload to exercise alignments.
class Buf
{
    Bytes* dummy = nullptr;
    u8*    raw;
    size_t n_, off_;
    static constexpr size_t G = 64;

public:
    explicit Buf(size_t n, size_t off = 0, int fillc = bufill()) : n_(n), off_(off)
    {
#ifdef VF_EXACT
        raw = (u8*)std::malloc(off + n + (off + n == 0));
        if (n) std::memset(raw + off, fillc, n);
#ifdef VF_VALGRIND
        if (bufundef() && n) (void)VALGRIND_MAKE_MEM_UNDEFINED(raw + off, n);
#endif
#else
        raw = (u8*)std::malloc(G + off + n + G);
        std::memset(raw, 0xC3, G + off + n + G);
        if (n) std::memset(raw + G + off, fillc, n);
#endif
    }
    Buf(const Bytes& b, size_t off = 0) : Buf(b.size(), off)
    {
        if (n_) std::memcpy(p(), b.data(), n_);
    }
    Buf(const void* b, size_t n, size_t off) : Buf(n, off)
    {
        if (n_) std::memcpy(p(), b, n_);
    }
    Buf(const Buf&)            = delete;
    Buf& operator=(const Buf&) = delete;
    ~Buf() { drop(); }
    // ends the buffer's life: nothing may depend on its contents any more
    void drop()
    {
        if (!raw) return;
        if (n_) std::memset(p(), 0x5a, n_);
        __asm__ volatile("" ::"r"(raw) : "memory");
        std::free(raw);
        raw = nullptr, n_ = 0;
    }
    u8* p()
    {
#ifdef VF_EXACT
        return raw + off_;
#else
        return raw + G + off_;
#endif
    }
    operator u8*() { return p(); }
    size_t size() const { return n_; }
    Bytes  bytes(size_t k) { return Bytes(p(), p() + k); }
    Bytes  bytes() { return bytes(n_); }
    bool   ok()
    {
        if (!raw) return true;
#ifndef VF_EXACT
        for (size_t i = 0; i < G + off_; i++)
            if (raw[i] != 0xC3) return false;
        for (size_t i = 0; i < G; i++)
            if (raw[G + off_ + n_ + i] != 0xC3) return false;
#endif
        return true;
    }
};

inline std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
            o += '\\', o += (char)c;
        else if (c < 32 || c > 126)
            o += fmt("\\u%04x", c);
        else
            o += (char)c;
    }
    return o + "\"";
}

inline void write_result()
{
    State& S = st();
    FILE*  f = fopen((S.outdir + "/result.json").c_str(), "w");
    if (!f) std::exit(3);
    fprintf(f, "{\"evals\":%llu,\"percase\":{", (unsigned long long)S.evals);
    bool c = false;
    for (auto& k : S.percase)
        fprintf(f, "%s%s:%llu", c ? "," : "", jstr(k.first).c_str(),
                (unsigned long long)k.second),
            c = true;
    fprintf(f, "},\"tags\":{");
    c = false;
    for (auto& k : S.tags)
        fprintf(f, "%s%s:%llu", c ? "," : "", jstr(k.first).c_str(),
                (unsigned long long)k.second),
            c = true;
    fprintf(f, "},\"required\":[");
    c = false;
    for (auto& k : Req::reqs())
        if (k.first == S.prop)
            fprintf(f, "%s%s", c ? "," : "", jstr(k.second).c_str()), c = true;
    fprintf(f, "],\"samples\":[");
    c = false;
    for (auto& k : S.samples)
        fprintf(f, "%s%s", c ? "," : "", jstr(k).c_str()), c = true;
    fprintf(f, "],\"fails\":[");
    c = false;
    for (auto& k : S.fails)
        fprintf(f,
                "%s{\"case\":%s,\"key\":%s,\"idx\":%llu,\"detail\":%s}",
                c ? "," : "", jstr(k.kase).c_str(), jstr(k.key).c_str(),
                (unsigned long long)k.idx, jstr(k.detail).c_str()),
            c = true;
    fprintf(f, "]}\n");
    fclose(f);
    f = fopen((S.outdir + "/fps.bin").c_str(), "wb");
    for (u64 x : S.fps) fwrite(&x, 8, 1, f);
    fclose(f);
    if (S.transcript) fclose(S.transcript), S.transcript = nullptr;
}

inline void run_one(const Case& k, u64 idx)
{
    State& S = st();
    Ctx    c;
    c.idx  = idx;
    c.kase = k.name;
    c.r    = Rnd(mix(mix(S.seed * 0x9E37 + S.salt) ^ hash_str(k.name.c_str()) ^
                     mix(idx)));
    c.fp   = hash_str(k.name.c_str());
    c.r.group = mix(mix(S.seed * 31 + S.salt) ^ hash_str(k.name.c_str()) ^ mix(idx / 64)) | 1;
    if (S.cur)
        snprintf(S.cur, 512, "%s %llu %u %lld\n", k.name.c_str(),
                 (unsigned long long)idx, k.limit_s, (long long)time(nullptr));
    try
    {
        k.fn(c);
    }
    catch (std::exception& e)
    {
        c.fail(("exception:" + k.name).c_str(), "unexpected exception: %s",
               e.what());
    }
    S.evals++;
    S.percase[k.name]++;
    if (c.nontrivial) S.fps.insert(c.fp);
    if (S.transcript)
        fprintf(S.transcript, "%s %llu %016llx\n", k.name.c_str(),
                (unsigned long long)idx, (unsigned long long)c.th);
}

inline int main_(int argc, char** argv)
{
    State&      S = st();
    std::string only;
    long long   only_idx = -1;
    double      mult = 1;
    bool        san      = false;
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--prop") S.prop = v;
        else if (a == "--out") S.outdir = v;
        else if (a == "--seed") S.seed = strtoull(v.c_str(), 0, 10);
        else if (a == "--salt") S.salt = hash_str(v.c_str());
        else if (a == "--config") S.config = v;
        else if (a == "--shard") S.shard = atoi(v.c_str());
        else if (a == "--nshards") S.nshards = atoi(v.c_str());
        else if (a == "--thorough") S.thorough = atoi(v.c_str());
        else if (a == "--scale") S.scale = atof(v.c_str());
        else if (a == "--mult") mult = atof(v.c_str());
        else if (a == "--san") san = atoi(v.c_str());
        else if (a == "--case") only = v;
        else if (a == "--idx") only_idx = atoll(v.c_str());
        else if (a == "--transcript")
            S.transcript = fopen(v.c_str(), "w");
        else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 3; }
    }
    int fd = open((S.outdir + "/current").c_str(), O_RDWR | O_CREAT, 0600);
    if (fd >= 0 && ftruncate(fd, 512) == 0)
    {
        void* m = mmap(0, 512, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (m != MAP_FAILED) S.cur = (char*)m;
        close(fd);
    }
    bool any = false;
    // interleave: rotate through the cases so that one slow family does not
    // leave the others untouched on a crash
    for (auto& k : cases())
    {
        if (k.prop != S.prop) continue;
        if (!only.empty() && k.name != only) continue;
        any = true;
        if (!only.empty() && only_idx >= 0)
        {
            run_one(k, (u64)only_idx);
            // may depend on the cases before it
            if (S.fails.empty())
                for (u64 i = (u64)only_idx / 64 * 64; i <= (u64)only_idx; i++) run_one(k, i);
            continue;
        }
        double n = (double)k.quick * S.scale;
        if (S.thorough) n *= k.thorough;
        else if (k.thorough >= 8) n *= mult; // sampled without bound
        if (san) n *= k.asan;
        u64 cnt = (u64)(n + 0.999);
        if (k.asan == 0 && san) cnt = 0;
        for (u64 i = 0; i < cnt; i++)
            if ((int)(i % (u64)S.nshards) == S.shard) run_one(k, i);
    }
    if (!any)
    {
        fprintf(stderr, "no case for %s %s\n", S.prop.c_str(), only.c_str());
        return 3;
    }
    write_result();
    return S.fails.empty() ? 0 : 10;
}
} // namespace vf

#define VF_CAT_(a, b) a##b
#define VF_CAT(a, b)  VF_CAT_(a, b)
#define VF_CASE(prop, name, quick, asan, thorough, ...)                        \
    static vf::Reg VF_CAT(vf_reg_, __COUNTER__)(prop, name, quick, asan,       \
                                                thorough, __VA_ARGS__)
#define VF_REQ(prop, ...)                                                      \
    static vf::Req VF_CAT(vf_req_, __COUNTER__)(prop, {__VA_ARGS__})
#define VF_MAIN                                                                \
    int main(int argc, char** argv) { return vf::main_(argc, argv); }
