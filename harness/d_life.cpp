// C36: the library gives the same results before main, after main and in
// forked processes. The program runs itself again with VF_LIFE set; the object
// `whole`, constructed before and destroyed after every other object of the
// program, then performs operations in its constructor and destructor and
// reports digests of their outputs on standard output.
#include "ops.h"
#include <cerrno>
#include <gmlib/rng/std_rng.h>
#include <poll.h>
#include <random>
#include <set>
#include <signal.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#if defined(CPU_FLAG_RDRAND)
#include <gmlib/rng/hardware_rng/rdrand32_rng.h>
#include <gmlib/rng/hardware_rng/rdrand64_rng.h>
#endif
#if defined(CPU_FLAG_RDSEED)
#include <gmlib/rng/hardware_rng/rdseed32_rng.h>
#include <gmlib/rng/hardware_rng/rdseed64_rng.h>
#endif
using namespace vf;
using namespace ops;

struct Plan // what a process of its own does
{
    u64      seed;
    unsigned rot, count, phases; // phases: 1 before main, 2 in main, 4 after main
};
struct Line
{
    u32 phase, op;
    u64 h, bytes, bad;
};
static bool plan(Plan& p)
{
    const char* e = std::getenv("VF_LIFE");
    unsigned long long s;
    if (!e || std::sscanf(e, "%llu %u %u %u", &s, &p.rot, &p.count, &p.phases) != 4) return false;
    p.seed = s;
    return true;
}
static u64 stream(const Plan& p, unsigned i) { return mix(p.seed + i); }
static void say(int fd, const void* p, size_t n)
{
    const char* q = (const char*)p;
    while (n)
    {
        ssize_t k = write(fd, q, n);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) _exit(3);
        q += k, n -= (size_t)k;
    }
}
static Line one(const Plan& p, unsigned phase, unsigned i)
{
    unsigned o = (p.rot + i) % (unsigned)all().size();
    Sink     s = ops::run(all()[o], stream(p, i), nullptr);
    return Line{phase, o, s.h, s.bytes, s.bad};
}
static void act(unsigned phase)
{
    Plan p;
    if (!plan(p) || !(p.phases & phase)) return;
    for (unsigned i = 0; i < p.count; i++)
    {
        Line l = one(p, phase, i);
        say(1, &l, sizeof l);
    }
}
struct Whole
{
    Whole()
    {
        all(), hook(); // the monitor's own data is made first
        act(1);
    }
    ~Whole() { act(4); }
};
__attribute__((init_priority(101))) static Whole whole;

// Reads what a process says until it ends; kills it after `limit` seconds.
static void die_(const char* w)
{
    std::perror(w), std::exit(2);
}
static Bytes listen(int fd, pid_t pid, int limit, int& status)
{
    Bytes  b;
    u8     t[4096];
    time_t end = time(nullptr) + limit;
    bool   hung = false;
    for (;;)
    {
        pollfd q{fd, POLLIN, 0};
        int    k = poll(&q, 1, 1000);
        if (k > 0)
        {
            ssize_t n = read(fd, t, sizeof t);
            if (n <= 0) break;
            b.insert(b.end(), t, t + n);
        }
        if (time(nullptr) > end)
        {
            kill(pid, SIGKILL), hung = true;
            break;
        }
    }
    close(fd);
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    if (hung) status = -1;
    return b;
}
static std::string ended(int st)
{
    if (st == -1) return "did not end";
    if (WIFSIGNALED(st)) return fmt("was ended by signal %d", WTERMSIG(st));
    return fmt("ended with status %d", WEXITSTATUS(st));
}
static const char* phase_name(u32 p) { return p == 1 ? "before main" : p == 2 ? "in main" : "after main"; }

static void life(Ctx& c, unsigned phases)
{
    unsigned k = (unsigned)all().size();
    Plan     p{c.r.next(), (unsigned)(c.idx % k), k + (unsigned)c.r.below(k), phases};
    c.in(p.seed), c.in((u64)p.rot), c.in((u64)p.count);
    c.sample(fmt("a process performing %u operations, %s first, %s%s%s", p.count, all()[p.rot].name, phases & 1 ? "before main " : "", phases & 2 ? "in main " : "",
                 phases & 4 ? "after main" : ""));
    int fd[2];
    if (pipe(fd)) die_("pipe");
    std::string env = fmt("VF_LIFE=%llu %u %u %u", (unsigned long long)p.seed, p.rot, p.count, phases), asan = "ASAN_OPTIONS=";
    if (const char* a = std::getenv("ASAN_OPTIONS")) asan += a;
    asan += ":check_initialization_order=1:strict_init_order=1";
    char*              envp[] = {&env[0], &asan[0], nullptr};
    static const char* self   = "/proc/self/exe";
    char*              argv[] = {(char*)self, nullptr};
    pid_t              pid    = fork();
    if (pid < 0) die_("fork");
    if (pid == 0)
    {
        dup2(fd[1], 1);
        close(fd[0]), close(fd[1]);
        execve(self, argv, envp);
        _exit(127);
    }
    close(fd[1]);
    int   st;
    Bytes b = listen(fd[0], pid, 40, st);
    size_t n = b.size() / sizeof(Line), want = p.count * (size_t)__builtin_popcount(phases);
    std::vector<Line> ref;
    for (unsigned i = 0; i < p.count; i++) ref.push_back(one(p, 0, i));
    for (size_t i = 0; i < n; i++)
    {
        Line l;
        std::memcpy(&l, &b[i * sizeof l], sizeof l);
        const Line& w = ref[i % p.count];
        c.tag(fmt("%s %s", all()[l.op % k].name, phase_name(l.phase)));
        if (l.op != w.op || l.h != w.h || l.bytes != w.bytes || (l.bad && !w.bad))
            c.fail(fmt("life:%s", phase_name(l.phase)).c_str(), "operation %s (%zu of the process, starting with %s) %s: %llu output bytes with digest %016llx, %016llx expected%s",
                   all()[l.op % k].name, i, all()[p.rot].name, phase_name(l.phase), (unsigned long long)l.bytes, (unsigned long long)l.h, (unsigned long long)w.h,
                   l.bad ? "; buffers were overrun" : "");
    }
    if (n != want || st != 0)
    {
        unsigned done = n < want ? (unsigned)(n % p.count) : 0;
        c.fail("life:process", "a process doing %u operations %s%s%sreported %zu of %zu results and %s; next was operation %s", p.count, phases & 1 ? "before main, " : "",
               phases & 2 ? "in main, " : "", phases & 4 ? "after main, " : "", n, want, ended(st).c_str(), all()[(p.rot + done) % k].name);
    }
}
VF_CASE("C36", "before-main", 26, 0.5, 20, [](Ctx& c) { life(c, 1); }, 120);
VF_CASE("C36", "after-main", 26, 0.5, 20, [](Ctx& c) { life(c, 4); }, 120);
VF_CASE("C36", "whole-life", 26, 0.5, 20, [](Ctx& c) { life(c, c.idx % 3 == 0 ? 6 : c.idx % 3 == 1 ? 5 : 7); }, 120);

// A process forks in the middle of an operation; both go on with it.
VF_CASE("C36", "fork", 260, 0.4, 20, [](Ctx& c) {
    const Op& o    = all()[c.idx % all().size()];
    u64       seed = c.r.next();
    size_t    points = 0;
    auto      count = [&] { points++; };
    auto      with  = [&](std::function<void()> f) {
        hook()   = f;
        Sink s   = ops::run(o, seed, nullptr, false, f);
        hook()   = nullptr;
        return s;
    };
    Sink alone = with(count);
    c.in(hash_str(o.name)), c.in(seed);
    if (!points) { c.nontrivial = false; return; }
    size_t at = c.r.below(points);
    c.in((u64)at);
    c.sample(fmt("operation %s forks at its point %zu of %zu", o.name, at, points));
    int fd[2];
    if (pipe(fd)) die_("pipe");
    pid_t  pid = -2;
    size_t i   = 0;
    Sink   s   = with([&] {
        if (i++ == at)
        {
            pid = fork();
            if (pid == 0) alarm(40);
        }
    });
    Line l{0, 0, s.h, s.bytes, s.bad};
    if (pid == 0)
    {
        say(fd[1], &l, sizeof l);
        _exit(0);
    }
    close(fd[1]);
    if (pid < 0)
    {
        close(fd[0]);
        c.fail("fork:points", "operation %s has %zu points the first time and %zu the second", o.name, points, i);
        return;
    }
    int   st;
    Bytes b = listen(fd[0], pid, 45, st);
    c.tag(std::string("forked in ") + o.name);
    if (s.h != alone.h || s.bytes != alone.bytes) c.fail("fork:parent", "operation %s forked at point %zu of %zu: the parent's result differs", o.name, at, points);
    if (b.size() != sizeof l || st) c.fail("fork:child", "operation %s forked at point %zu of %zu: the child %s", o.name, at, points, ended(st).c_str());
    else
    {
        std::memcpy(&l, b.data(), sizeof l);
        if (l.h != alone.h || l.bytes != alone.bytes || (l.bad && !alone.bad))
            c.fail("fork:child", "operation %s forked at point %zu of %zu: the child's result differs", o.name, at, points);
    }
}, 120);

// The random sources of the machine never give anybody the same value twice:
// not to the two processes after a fork, two threads or two objects.
static rng::Rng* source(unsigned i)
{
    switch (i)
    {
    case 0: return new rng::StdRng();
#if defined(CPU_FLAG_RDRAND)
    case 1: return new rng::hardware_rng::RdrandRng_32<>();
    case 2: return new rng::hardware_rng::RdrandRng_64<>();
#endif
#if defined(CPU_FLAG_RDSEED)
    case 3: return new rng::hardware_rng::RdseedRng_32<>();
    case 4: return new rng::hardware_rng::RdseedRng_64<>();
#endif
    default: return nullptr;
    }
}
VF_CASE("C36", "fork-random", 60, 0.5, 20, [](Ctx& c) {
    std::unique_ptr<rng::Rng> g(source((unsigned)(c.idx % 5))), g2(source((unsigned)(c.idx % 5)));
    if (!g) { c.nontrivial = false; return; }
    c.in(c.idx), c.in(c.r.next());
    size_t before = c.r.below(70), rounds = 1 + c.r.below(40), unit = 16 + c.r.below(20);
    auto   draw = [&](rng::Rng& x, Bytes& to) {
        Bytes t(unit);
        for (int tries = 0; tries < 50; tries++) // the hardware may be busy
            try
            {
                x.gen(t.data(), unit);
                to.insert(to.end(), t.begin(), t.end());
                return;
            }
            catch (const std::exception&)
            {
                usleep(100);
            }
    };
    Bytes mine, theirs, other, w(before + 1);
    try { g->gen(w.data(), before); } catch (const std::exception&) {}
    draw(*g, mine);
    int fd[2];
    if (pipe(fd)) die_("pipe");
    pid_t pid = fork();
    if (pid < 0) die_("fork");
    if (pid == 0)
    {
        alarm(40);
        for (size_t i = 0; i < rounds; i++) draw(*g, theirs);
        say(fd[1], theirs.data(), theirs.size());
        _exit(0);
    }
    close(fd[1]);
    for (size_t i = 0; i < rounds; i++) draw(*g, mine);
    int st;
    theirs = listen(fd[0], pid, 45, st);
    std::thread th([&] { for (size_t i = 0; i < rounds; i++) draw(*g2, other); });
    std::unique_ptr<rng::Rng> g3(source((unsigned)(c.idx % 5)));
    for (size_t i = 0; i < rounds; i++) draw(*g3, mine);
    th.join();
    if (st) c.fail("fork-random:child", "the child %s", ended(st).c_str());
    // any four equal bytes at the start of eight equal ones: all aligned windows
    std::set<Bytes> seen;
    size_t          n = 0;
    for (const Bytes* b : {&mine, &theirs, &other})
        for (size_t i = 0; i + unit <= b->size(); i += unit)
        {
            for (size_t q = 0; q < 2; q++) // both halves of every draw
            {
                Bytes h(b->begin() + (long)(i + q * 8), b->begin() + (long)(i + q * 8 + 8));
                n++;
                if (!seen.insert(h).second)
                {
                    c.fail("fork-random:repeat", "%s gives %s twice (%s)", g->name(), hex(h).c_str(),
                           b == &theirs ? "to parent and child of a fork" : b == &other ? "to two threads" : "to one process");
                    return;
                }
            }
        }
    c.tag(fmt("values compared, source %s", g->name()), n);
    c.sample(fmt("%zu values of %s from two processes, two threads, three objects", n, g->name()));
}, 120);
VF_REQ("C36", "sm3 before main", "hmac before main", "ghash before main", "block before main", "mode before main", "memory before main", "number before main",
       "montgomery before main", "asn1 before main", "sm2-sign before main", "sm2-crypt before main", "sm2-public before main", "sm9 before main", "sm3 after main",
       "hmac after main", "ghash after main", "block after main", "mode after main", "memory after main", "number after main", "montgomery after main", "asn1 after main",
       "sm2-sign after main", "sm2-crypt after main", "sm2-public after main", "sm9 after main", "forked in sm2-sign", "forked in sm9", "forked in mode", "forked in hmac");

int main(int argc, char** argv)
{
    Plan p;
    if (plan(p))
    {
        act(2);
        return 0;
    }
    return vf::main_(argc, argv);
}
