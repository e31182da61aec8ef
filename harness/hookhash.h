// A hash with the library's interface whose digest the harness decides.
#pragma once
#include "vf.h"
#include "ossl.h"
struct HashHook
{
    static std::function<bool(const vf::Bytes&, vf::u8*)>& fn()
    {
        static std::function<bool(const vf::Bytes&, vf::u8*)> f;
        return f;
    }
};
template <size_t D>
struct HookHash
{
    static constexpr std::size_t BLOCK_SIZE = 64, DIGEST_SIZE = D;
    vf::Bytes                    m;
    void reset() { m.clear(); }
    const char* name() const noexcept { return "HookHash"; }
    void update(const std::uint8_t* in, std::size_t l) { m.insert(m.end(), in, in + l); }
    void do_final(std::uint8_t* d, const std::uint8_t* in = nullptr, std::size_t l = 0)
    {
        if (l) update(in, l);
        vf::Bytes r = eval(m);
        std::memcpy(d, r.data(), D);
    }
    static vf::Bytes eval(const vf::Bytes& in)
    {
        vf::Bytes r(D);
        if (HashHook::fn() && HashHook::fn()(in, r.data())) return r;
        for (size_t i = 0, c = 0; i < D; c++)
        {
            vf::Bytes t = in;
            t.push_back((vf::u8)(0xA0 + c));
            t = ossl::sm3(t);
            for (size_t k = 0; k < 32 && i < D; k++) r[i++] = t[k];
        }
        return r;
    }
};
struct HookGuard
{
    explicit HookGuard(std::function<bool(const vf::Bytes&, vf::u8*)> f) { HashHook::fn() = f; }
    ~HookGuard() { HashHook::fn() = nullptr; }
};
