// C30 threads, C31 memory safety, C32 builds, C33 definedness: the operations
// of ops.h under the monitors that compare executions with each other.
#include "ops.h"
#include <alloca.h>
#include <atomic>
#include <gmlib/rng/std_rng.h>
#if defined(CPU_FLAG_RDRAND)
#include <gmlib/rng/hardware_rng/rdrand32_rng.h>
#include <gmlib/rng/hardware_rng/rdrand64_rng.h>
#endif
#include <malloc.h>
#include <sched.h>
#include <thread>
using namespace vf;
using namespace ops;

static size_t total_weight()
{
    size_t w = 0;
    for (auto& o : all()) w += o.weight;
    return w;
}
static const Op& pick(Rnd& r)
{
    static const size_t w = total_weight();
    size_t              k = r.below(w);
    for (auto& o : all())
    {
        if (k < o.weight) return o;
        k -= o.weight;
    }
    return all()[0];
}
static bool heavy(const Op& o) { return !std::strcmp(o.name, "sm9"); }
static std::string show(const Sink& s) { return fmt("%llu output bytes with digest %016llx", (unsigned long long)s.bytes, (unsigned long long)s.h); }

// ---- C30
struct Job
{
    const Op* op;
    u64       seed;
    bool      shared;
    Sink      got;
};
struct Crew
{
    std::vector<std::vector<Job>> jobs;
    std::atomic<int>              waiting{0};
    std::atomic<u64>              switches{0};
    std::atomic<u64>              last{0};
    u64                           noise;
};
static void work(Crew& w, size_t t, const Shared* sh)
{
    Rnd n(w.noise ^ mix(t));
    w.waiting.fetch_sub(1, std::memory_order_relaxed);
    while (w.waiting.load(std::memory_order_relaxed) > 0) {}
    auto stir = [&] { // scheduling noise; counts the changes of thread seen
        u64 me = t + 1;
        if (w.last.exchange(me, std::memory_order_relaxed) != me) w.switches.fetch_add(1, std::memory_order_relaxed);
        switch (n.below(6))
        {
        case 0: sched_yield(); break;
        case 1: usleep((useconds_t)n.below(200)); break;
        case 2: for (volatile u64 i = n.below(3000); i; i = i - 1) {} break;
        default: break;
        }
    };
    for (auto& j : w.jobs[t])
    {
        stir();
        hook() = stir;
        j.got  = ops::run(*j.op, j.seed, j.shared ? sh : nullptr);
        hook() = nullptr;
    }
}
static void crew(Ctx& c, Crew& w, const Shared* sh)
{
    size_t n = w.jobs.size();
    w.noise  = c.r.next();
    w.waiting.store((int)n);
    std::vector<std::thread> th;
    for (size_t t = 0; t < n; t++) th.emplace_back([&w, t, sh] { work(w, t, sh); });
    for (auto& t : th) t.join();
    c.tag(fmt("%zu threads", n));
    c.tag("changes of the running thread inside operations", w.switches.load());
    for (size_t t = 0; t < n; t++)
        for (auto& j : w.jobs[t])
        {
            Sink one = ops::run(*j.op, j.seed, j.shared ? sh : nullptr);
            c.in(hash_str(j.op->name)), c.in(j.seed);
            c.tag(std::string("threaded ") + j.op->name);
            if (one.h != j.got.h || one.bytes != j.got.bytes)
                c.fail((std::string("threads:") + j.op->name).c_str(), "thread %zu of %zu, operation %s (stream %016llx%s): %s; alone: %s", t, n, j.op->name,
                       (unsigned long long)j.seed, j.shared ? ", shared objects" : "", show(j.got).c_str(), show(one).c_str());
            if (j.got.bad && !one.bad) c.fail((std::string("threads:") + j.op->name).c_str(), "only in a thread: %s", j.got.why.c_str());
        }
}
// First uses of everything in the process, at the same time. The order of the
// operations differs from case to case, so that each is first somewhere.
VF_CASE("C30", "first-use", 24, 1, 20, [](Ctx& c) {
    Crew   w;
    size_t n = 2 + c.r.below(4), k = all().size(), rot = c.r.below(k);
    w.jobs.resize(n);
    for (auto& v : w.jobs)
        for (size_t i = 0; i < k; i++)
        {
            const Op& o   = all()[(i + rot) % k];
            size_t    rep = heavy(o) ? 1 : 3;
            for (size_t q = 0; q < rep; q++) v.push_back({&o, c.r.next(), false, {}});
        }
    c.sample(fmt("%zu threads start with operation %s and go round", n, all()[rot].name));
    crew(c, w, nullptr);
});
VF_CASE("C30", "one-operation", 120, 0.6, 20, [](Ctx& c) { // all threads in the same code
    Crew      w;
    size_t    n = 2 + c.r.below(5);
    const Op& o = all()[c.idx % all().size()];
    bool      same = c.r.chance(1, 2);
    u64       s0   = c.r.next();
    w.jobs.resize(n);
    for (auto& v : w.jobs)
        for (size_t q = 0; q < (heavy(o) ? 2u : 12u); q++) v.push_back({&o, same ? s0 + q : c.r.next(), false, {}});
    c.sample(fmt("%zu threads run %s, %s", n, o.name, same ? "the same inputs" : "different inputs"));
    crew(c, w, nullptr);
});
VF_CASE("C30", "mixed", 100, 0.6, 20, [](Ctx& c) {
    Crew   w;
    size_t n = 2 + c.r.below(6);
    w.jobs.resize(n);
    for (auto& v : w.jobs)
        for (size_t q = 4 + c.r.below(12); q; q--) v.push_back({&pick(c.r), c.r.next(), false, {}});
    c.sample(fmt("%zu threads, different operations on distinct objects", n));
    crew(c, w, nullptr);
});
VF_CASE("C30", "shared-keys", 120, 0.6, 20, [](Ctx& c) {
    Crew   w;
    size_t n = 2 + c.r.below(6);
    Shared sh(c.r.next());
    w.jobs.resize(n);
    bool      one = c.r.chance(1, 2);
    const Op& o   = pick(c.r);
    for (auto& v : w.jobs)
        for (size_t q = 4 + c.r.below(10); q; q--) v.push_back({one ? &o : &pick(c.r), c.r.next(), true, {}});
    c.sample(fmt("%zu threads share read-only keys and prototypes, %s", n, one ? o.name : "different operations"));
    crew(c, w, &sh);
});
// Without threads: another operation runs inside the random source or the
// hash of the first one. Shared scratch storage would show.
VF_CASE("C30", "nested", 600, 0.15, 20, [](Ctx& c) {
    static const char* const outer[] = {"sm2-sign", "sm2-crypt", "sm9", "sm2-public"};
    const char*              on      = outer[c.r.below(4)];
    const Op*                o       = nullptr;
    for (auto& x : all())
        if (!std::strcmp(x.name, on)) o = &x;
    std::unique_ptr<Shared> sh(c.r.chance(1, 4) ? new Shared(c.r.next()) : nullptr);
    u64                     seed = c.r.next();
    Sink                    alone = ops::run(*o, seed, sh.get());
    std::vector<Job>        in;
    Rnd                     r = c.r;
    bool                    onlysame = c.r.chance(1, 3);
    size_t                  calls = 0, limit = heavy(*o) ? 6 : 12;
    u64                     when = c.r.below(3);
    hook() = [&] {
        calls++;
        if (in.size() >= limit || r.below(1 + when * 2)) return;
        const Op* x = onlysame ? o : &pick(r);
        Job       j = {x, r.next(), sh && r.chance(1, 2), {}};
        j.got       = ops::run(*x, j.seed, j.shared ? sh.get() : nullptr);
        in.push_back(j);
    };
    Sink with = ops::run(*o, seed, sh.get());
    hook()    = nullptr;
    c.in(seed), c.in(hash_str(on));
    c.tag(std::string("nested in ") + on, in.size());
    c.sample(fmt("%s with %zu other operations inside", on, in.size()));
    if (with.h != alone.h) c.fail((std::string("nested:") + on).c_str(), "%s differs when other operations run inside it: %s; alone: %s", on, show(with).c_str(), show(alone).c_str());
    for (auto& j : in)
    {
        Sink one = ops::run(*j.op, j.seed, j.shared ? sh.get() : nullptr);
        if (one.h != j.got.h) c.fail((std::string("nested:") + j.op->name).c_str(), "%s differs when it runs inside %s", j.op->name, on);
    }
});
VF_CASE("C30", "generators", 12, 1, 10, [](Ctx& c) {
    std::vector<std::thread> th;
    std::atomic<int>         bad{0};
    size_t                   n = 2 + c.r.below(5);
    for (size_t t = 0; t < n; t++)
        th.emplace_back([&bad, t] {
            Rnd r(t);
            for (int i = 0; i < 20; i++)
            {
                Buf b(r.below(70), r.below(8));
                rng::StdRng().gen(b, b.size());
                if (!b.ok()) bad++;
#if defined(CPU_FLAG_RDRAND)
                rng::hardware_rng::RdrandRng_32<>().gen(b, b.size());
                rng::hardware_rng::RdrandRng_64<>().gen(b, b.size());
                if (!b.ok()) bad++;
#endif
            }
        });
    for (auto& t : th) t.join();
    c.in(n), c.in(c.idx);
    c.tag("generators in threads");
    if (bad) c.fail("threads:generators", "a generator wrote outside its buffer");
});
VF_REQ("C30", "changes of the running thread inside operations", "threaded sm2-sign", "threaded sm9", "threaded mode", "nested in sm2-sign", "nested in sm9");

// ---- C31
static void memory(Ctx& c)
{
    const Op& o    = pick(c.r);
    u64       seed = c.r.next();
    c.in(hash_str(o.name)), c.in(seed);
    static std::unique_ptr<Shared> sh(new Shared(1));
    Sink s = ops::run(o, seed, c.r.chance(1, 3) ? sh.get() : nullptr);
    c.tag(std::string("operation ") + o.name);
    c.tag("output bytes", s.bytes);
    c.sample(fmt("%s: %s", o.name, show(s).c_str()));
    c.out(s.h), c.out(s.bytes);
    if (s.bad) c.fail((s.why.substr(0, s.why.find(':')) + ":" + o.name).c_str(), "%s (stream %016llx)", s.why.c_str(), (unsigned long long)seed);
}
VF_CASE("C31", "operations", 20000, 0.4, 20, memory);
VF_REQ("C31", "operation sm3", "operation mode", "operation asn1", "operation sm2-crypt", "operation sm9", "operation number");

// ---- C32
VF_CASE("C32", "operations", 9000, 0.4, 20, memory);
VF_REQ("C32", "operation sm3", "operation mode", "operation asn1", "operation sm2-crypt", "operation sm9", "operation number");

// ---- C33
VF_CASE("C33", "operations", 700, 1, 40, [](Ctx& c) {
    bufundef() = true;
    memory(c);
    bufundef() = false;
});
static void __attribute__((noinline)) paint(int v)
{
    size_t         n = 192 * 1024;
    volatile char* p = (volatile char*)alloca(n);
    for (size_t i = 0; i < n; i++) p[i] = (char)v;
}
static Sink __attribute__((noinline)) dirty_run(const Op& o, u64 seed, int v)
{
    int old  = bufill();
    bufill() = v;
    mallopt(M_PERTURB, v ? v : 255);
    paint(v);
    Sink s = ops::run(o, seed, nullptr, true);
    mallopt(M_PERTURB, 0);
    bufill() = old;
    return s;
}
VF_CASE("C33", "dirty-memory", 5000, 0, 20, [](Ctx& c) {
    const Op& o    = pick(c.r);
    u64       seed = c.r.next();
    c.in(hash_str(o.name)), c.in(seed);
    int  v[4] = {0, 0xff, 0x55, (int)c.r.below(256)};
    Sink s[4];
    for (int i = 0; i < 4; i++)
    {
        s[i] = dirty_run(o, seed, v[i]);
        if (i && (s[i].h != s[0].h || s[i].bytes != s[0].bytes || s[i].bad != s[0].bad))
        {
            size_t k = 0;
            while (k < s[i].log.size() && k < s[0].log.size() && s[i].log[k] == s[0].log[k]) k++;
            c.fail((std::string("dirty:") + o.name).c_str(), "%s (stream %016llx): memory filled with %02x: %s; with %02x: %s; first difference at output byte %zu", o.name,
                   (unsigned long long)seed, v[i], show(s[i]).c_str(), v[0], show(s[0]).c_str(), k);
            break;
        }
    }
    c.tag(std::string("repeated ") + o.name);
    c.tag("output bytes compared", s[0].bytes * 3);
    c.sample(fmt("%s: %s", o.name, show(s[0]).c_str()));
});
// builds in which a variable that was never set holds zeros, or a pattern
VF_CASE("C33", "unset-locals", 6000, 0, 20, [](Ctx& c) {
    if (st().config.compare(0, 4, "init")) { c.nontrivial = false; return; }
    memory(c);
    c.tag("operations with unset variables filled");
});
VF_REQ("C33", "operation sm3", "operation mode", "operation asn1", "operation sm2-crypt", "operation sm9", "operation number", "repeated sm9", "repeated mode");
VF_MAIN
