// Internal interface between the parts of the simulator.
#pragma once
#include "sim.h"
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

namespace sim
{
    constexpr int kMaxFibers = 96;
    constexpr size_t kStackSize = 256 * 1024;

    struct Clock
    {
        u32 c[kMaxFibers];
        void clear() { memset(c, 0, sizeof c); }
        void join(const Clock& o)
        {
            for (int i = 0; i < kMaxFibers; ++i)
                if (o.c[i] > c[i]) c[i] = o.c[i];
        }
    };

    enum class FState : u8 { Unused, Runnable, Blocked, Finished, Dead };

    struct Fiber
    {
        int id = 0;
        FState state = FState::Unused;
        void* sp = nullptr;
        void* tcb = nullptr;
        char* stack_lo = nullptr;
        void* (*fn)(void*) = nullptr;
        void* arg = nullptr;
        void* ret = nullptr;
        bool detached = false;
        bool joined = false;
        const char* blocked_on = "";
        u64 wait_key = 0;        // address / object waited on
        bool timed_out = false;
        u64 wait_gen = 0;        // invalidates stale timers
        u64 local = 0;           // local scheduling point index
        u64 dcount[DkCount] = {};
        i64 prio = 0;
        Clock vc, rel_fence, acq_pend;
        Clock view, rel_view, acq_view;
        bool has_rel_fence = false, has_acq_pend = false;
        int joiner = -1;
        std::vector<std::pair<void (*)(void*), void*>> tls_dtors;
        std::map<unsigned, void*> keys;
        bool alloc_fail = false;
    };

    struct Dec
    {
        u64 key;
        u64 val;
    };
    constexpr u64 kMaxDec = 1u << 20;
    inline u64 dec_key(Dk k, int fiber, u64 idx) { return (u64(k) << 60) | (u64(fiber) << 48) | idx; }

    constexpr int kMaxProbe = 96;
    enum Status : u32 { S_Running = 0, S_Ok = 1, S_Violation = 2, S_SimError = 3 };
    struct RunResult
    {
        u32 status;
        u32 nontrivial;
        char cls[160];
        char msg[4096];
        u64 steps, vtime, hash, sched_hash, switches, accesses, kops;
        u64 faults[FaultCount];
        u32 nprobe;
        u32 stale_reads;
        struct
        {
            char name[56];
            u64 n;
        } probes[kMaxProbe];
        u64 ndec;
        u64 dec_overflow;
        Dec dec[kMaxDec];
    };

    struct RunInput
    {
        u64 seed = 0;
        bool replay = false;
        const Dec* dec = nullptr;
        u64 ndec = 0;
        int trace_fd = -1;
        Scenario* scen = nullptr;
        const char* scratch = nullptr;
    };

    // core
    extern bool g_running;
    extern int g_in;              // >0: inside the simulator (or a quiet section)
    extern Fiber* g_cur;
    extern Fiber g_fibers[kMaxFibers];
    extern int g_nfibers;
    extern RunResult* g_res;
    extern u64 g_now, g_steps;
    struct In
    {
        In() { ++g_in; }
        ~In() { --g_in; }
    };
    [[noreturn]] void run_child(const RunInput& in, RunResult* res);
    int fiber_create(void* (*fn)(void*), void* arg);
    void fiber_exit(void* ret);
    // blocks the current fiber; returns false when the deadline passed. deadline 0: none
    bool block(const char* what, u64 key, u64 deadline_ns);
    void wake(Fiber* f);
    int wake_key(u64 key, int max);   // wakes fibers blocked on key in FIFO order
    void maybe_resched();             // let the scheduler decide whether to continue (after a wake)
    Scenario* scenarios();

    // mem
    void mem_init_process();
    void mem_start_run();
    char* arena_alloc_raw(size_t n, size_t align);
    char* stack_alloc(int fiber);
    void race_fiber_start(Fiber* child, Fiber* parent);
    void hb_release(Clock& to);
    void hb_acquire(const Clock& from);
    void hb_release_join(Clock& to);
    void sync_release_at(const void* a, const Clock& c);   // as if an atomic at a had been stored with release by someone who had seen c
    void view_all();                                       // the running thread now sees the newest value of every atomic
    void snapshot_globals();
    void kernel_access_check(const void* p, size_t n, const char* what);
    void mem_mark_internal(bool);

    // kernel
    void kernel_start_run();
    void kernel_kill_waiters();
    void kernel_wall_jumped();
    void pthread_reset();
}  // namespace sim
