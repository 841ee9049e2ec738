// Shared by the scenarios.
#pragma once
#include <sim.h>

#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <thread>
#include <unordered_map>
#include <utility>
#include <vector>

using sim::u16;
using sim::u32;
using sim::u64;
using sim::u8;
using sim::i64;
using sim::Quiet;
using sim::Work;
using sim::Env;
using sim::Conf;

inline u64 wr(u64 lo, u64 hi) { return sim::range(sim::Work, lo, hi); }
inline bool wc(double p) { return sim::chance(sim::Work, p); }

// In a share of the runs atomics behave as the C++ memory model allows: loads may return stale values.
inline bool swarm_weak_memory(double p)
{
    const bool weak = sim::chance(sim::Conf, p);
    sim::weak_memory(weak);
    if (weak) sim::set_fault(sim::F_StaleRead, sim::chance(sim::Conf, 0.5) ? 0.3 : 0.05);
    return weak;
}

// An object whose every life is counted and whose content is spread over several words.
struct Tracked
{
    static inline i64 live = 0, made = 0;
    u64 a, b, c;
    u32* heap;
    static constexpr u64 kDead = 0xdeaddeaddeaddeadull;
    static void inc()
    {
        Quiet q;
        ++live;
        ++made;
    }
    explicit Tracked(u64 v) : a(v), b(~v), c(v * 3), heap(new u32(u32(v))) { inc(); }
    Tracked(Tracked&& o) noexcept : a(o.a), b(o.b), c(o.c), heap(o.heap)
    {
        o.heap = nullptr;
        inc();
    }
    Tracked& operator=(Tracked&& o) noexcept
    {
        if (this != &o)
        {
            delete heap;
            a = o.a;
            b = o.b;
            c = o.c;
            heap = o.heap;
            o.heap = nullptr;
        }
        return *this;
    }
    Tracked(const Tracked&) = delete;
    Tracked& operator=(const Tracked&) = delete;
    ~Tracked()
    {
        SIM_CHECK(a != kDead, "object:destroyed-twice", "an item was destroyed twice");
        delete heap;
        heap = nullptr;
        a = kDead;
        Quiet q;
        --live;
        SIM_CHECK(live >= 0, "object:destroyed-twice", "more items destroyed than constructed");
    }
    u64 value() const
    {
        SIM_CHECK(b == ~a && c == a * 3 && heap && *heap == u32(a), "item:modified", "item content is torn or modified: %llx %llx %llx", (unsigned long long)a, (unsigned long long)b, (unsigned long long)c);
        return a;
    }
};
struct TrackedDef : Tracked
{
    TrackedDef() : Tracked(0) {}
    using Tracked::Tracked;
    TrackedDef(TrackedDef&&) noexcept = default;
    TrackedDef& operator=(TrackedDef&&) noexcept = default;
};
