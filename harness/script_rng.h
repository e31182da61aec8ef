// A scripted random source: returns prepared draws, records what was asked,
// fails on demand, and refuses to go on for ever.
#pragma once
#include "vf.h"
#include <gmlib/rng/rng.h>
#include <stdexcept>
struct RngFailure : std::runtime_error
{
    RngFailure() : std::runtime_error("scripted random source failure") {}
};
struct ScriptRng : rng::Rng
{
    std::vector<vf::Bytes> script; // successive draws
    size_t                 pos = 0, bytes = 0;
    long                   fail_at = -1; // index of the draw that fails
    bool                   ran_out = false;
    vf::Rnd                rest{0};
    bool                   use_rest = false;
    size_t                 budget   = 0; // draws allowed beyond the script
    std::vector<vf::Bytes> log;
    const char* name() const override { return "ScriptRng"; }
    void        gen(void* out, std::size_t len) override
    {
        if ((long)pos == fail_at) { pos++; throw RngFailure(); }
        vf::Bytes d;
        if (pos < script.size())
        {
            d = script[pos];
            d.resize(len, 0x5c);
        }
        else if (use_rest && pos < script.size() + budget)
            d = rest.bytes(len);
        else
        {
            ran_out = true;
            pos++;
            throw RngFailure();
        }
        pos++;
        bytes += len;
        if (len) std::memcpy(out, d.data(), len);
        log.push_back(d);
    }
};
