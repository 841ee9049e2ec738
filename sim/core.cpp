// Scheduler, clock, decisions, verdicts.
#include "int.h"

#include <cxxabi.h>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <exception>
#include <queue>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <typeinfo>
#include <ucontext.h>
#include <unistd.h>
#include <algorithm>
#include <cmath>

namespace sim
{
    bool g_running = false;
    int g_in = 0;
    Fiber* g_cur = nullptr;
    Fiber g_fibers[kMaxFibers];
    int g_nfibers = 0;
    RunResult* g_res = nullptr;
    u64 g_now = 0, g_steps = 0;
    static RunInput g_input;
    static Policy g_policy;
    static bool g_kernel_ctx = false;
    static double g_rate[FaultCount];
    static bool g_faults_on = true;
    static i64 g_wall_off = 0;
    static u64 g_mono_base = 0;   // the monotonic clock restarts with the machine
    static Scenario* g_scen_head = nullptr;
    static u64 g_hash = 1469598103934665603ull, g_shash = 1469598103934665603ull;
    static Fiber* g_settler = nullptr;
    static u64 g_settle_horizon = 0;
    static bool g_resched = false;
    static u64 g_preempt_in = 0;
    static std::vector<u64>* g_pct_points = nullptr;
    static size_t g_pct_next = 0;
    static i64 g_pct_low = 0;
    static i64 g_pct_high = 2000000;
    static u64 g_run_streak = 0;
    static bool g_tracing = false;

    // ---- raw syscalls (the libc names are interposed) -----------------------------------------------------------------
    static long raw3(long n, long a, long b, long c)
    {
        long r;
        asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory");
        return r;
    }

    // ---- PRNG --------------------------------------------------------------------------------------------------------
    static u64 g_s[4];
    static u64 splitmix(u64& x)
    {
        u64 z = (x += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    static inline u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
    static u64 rnd()
    {
        const u64 result = rotl(g_s[1] * 5, 7) * 9, t = g_s[1] << 17;
        g_s[2] ^= g_s[0];
        g_s[3] ^= g_s[1];
        g_s[1] ^= g_s[2];
        g_s[0] ^= g_s[3];
        g_s[2] ^= t;
        g_s[3] = rotl(g_s[3], 45);
        return result;
    }
    static double rnd01() { return double(rnd() >> 11) * (1.0 / 9007199254740992.0); }

    // ---- decisions ---------------------------------------------------------------------------------------------------
    struct Stream
    {
        std::vector<std::pair<u64, u64>> v;  // sorted by index
        size_t cur = 0;
    };
    static Stream* g_streams = nullptr;  // [DkCount][kMaxFibers], replay only

    static void record(u64 key, u64 val)
    {
        if (g_res->ndec < kMaxDec)
        {
            g_res->dec[g_res->ndec++] = {key, val};
        }
        else
            g_res->dec_overflow = 1;
    }
    static int dec_fiber() { return g_kernel_ctx || !g_cur ? kMaxFibers - 1 : g_cur->id; }
    static u64 replay_lookup(Dk k, int f, u64 idx)
    {
        Stream& s = g_streams[size_t(k) * kMaxFibers + f];
        while (s.cur < s.v.size() && s.v[s.cur].first < idx) ++s.cur;
        if (s.cur < s.v.size() && s.v[s.cur].first == idx) return s.v[s.cur].second;
        return 0;
    }
    template<typename Gen>
    static u64 decision(Dk k, u64 n, Gen gen)
    {
        In in;
        const int f = dec_fiber();
        const u64 idx = g_fibers[f].dcount[k]++;
        u64 v;
        if (g_input.replay)
        {
            v = replay_lookup(k, f, idx);
            if (v >= n) v %= n;
        }
        else
            v = gen();
        if (v) record(dec_key(k, f, idx), v);
        hash_event(v * 31 + n);
        return v;
    }
    u64 decide(Dk k, u64 n)
    {
        if (n <= 1) return 0;
        return decision(k, n, [n] { return rnd() % n; });
    }
    u64 decide_p(Dk k, u64 n, double p0)
    {
        if (n <= 1) return 0;
        return decision(k, n, [n, p0]() -> u64 { return rnd01() < p0 ? 0 : 1 + rnd() % (n - 1); });
    }
    bool chance(Dk k, double p)
    {
        if (p <= 0) return false;
        return decision(k, 2, [p]() -> u64 { return rnd01() < p ? 1 : 0; }) != 0;
    }

    // ---- faults ------------------------------------------------------------------------------------------------------
    static const char* kFaultNames[FaultCount] = {
            "short_read", "short_write", "eintr", "eagain", "eio", "enospc", "emfile", "conn_reset", "conn_refused", "accept_fail", "sq_full",
            "partial_submit", "submit_eintr", "cq_overflow", "init_fail", "syscall_fail", "delay", "reorder", "thread_stall", "spurious_cas",
            "spurious_wake", "clock_jump", "crash", "torn_write", "lost_write", "bit_flip", "truncate", "alloc_fail", "peer_close", "peer_slow",
            "fragment", "splice_short", "timer_late", "cancel", "stale_read", "fsync_fail", "close_fail", "submit_fatal", "sock_eintr", "stat_fail"};
    const char* fault_name(Fault f) { return kFaultNames[f]; }
    void set_fault(Fault f, double p) { g_rate[f] = p; }
    double fault_rate(Fault f) { return g_rate[f]; }
    bool fault(Fault f)
    {
        if (g_rate[f] <= 0 || !g_faults_on) return false;
        if (!chance(Env, g_rate[f])) return false;
        count_fault(f);
        return true;
    }
    void count_fault(Fault f)
    {
        g_res->faults[f]++;
        if (g_tracing) tracef("fault %s", kFaultNames[f]);
    }
    void faults_enabled(bool on) { g_faults_on = on; }
    bool faults_on() { return g_faults_on; }

    // ---- basics ------------------------------------------------------------------------------------------------------
    u64 now() { return g_now; }
    i64 wall_offset() { return g_wall_off; }
    void jump_wall_clock(i64 d)
    {
        g_wall_off += d;
        count_fault(F_ClockJump);
        kernel_wall_jumped();
    }
    u64 mono_base() { return g_mono_base; }
    void restart_monotonic_clock(u64 at)
    {
        if (at < g_now) g_mono_base = g_now - at;
        count_fault(F_ClockJump);
    }
    u64 steps() { return g_steps; }
    int fid() { return g_cur ? g_cur->id : -1; }
    Policy& policy() { return g_policy; }
    bool tracing() { return g_tracing; }
    int thread_count() { return g_nfibers; }
    void quiet_enter() { ++g_in; }
    void quiet_leave() { --g_in; }
    void note_nontrivial() { g_res->nontrivial = 1; }
    void hash_event(u64 x) { g_hash = (g_hash ^ x) * 1099511628211ull; }
    void register_scenario(Scenario* s)
    {
        s->next = g_scen_head;
        g_scen_head = s;
    }
    Scenario* scenarios() { return g_scen_head; }

    void probe(const char* name)
    {
        RunResult& r = *g_res;
        for (u32 i = 0; i < r.nprobe; ++i)
            if (!strncmp(r.probes[i].name, name, sizeof r.probes[i].name - 1))
            {
                r.probes[i].n++;
                return;
            }
        if (r.nprobe < kMaxProbe)
        {
            strncpy(r.probes[r.nprobe].name, name, sizeof r.probes[0].name - 1);
            r.probes[r.nprobe].n = 1;
            r.nprobe++;
        }
    }

    void tracef(const char* fmt, ...)
    {
        if (!g_tracing) return;
        In in;
        char buf[1200];
        int n = snprintf(buf, sizeof buf, "%8llu %12.3fus T%-2d ", (unsigned long long)g_steps, double(g_now) / 1000.0, g_kernel_ctx ? 99 : (g_cur ? g_cur->id : -1));
        va_list ap;
        va_start(ap, fmt);
        n += vsnprintf(buf + n, sizeof buf - n - 2, fmt, ap);
        va_end(ap);
        if (n > int(sizeof buf) - 2) n = sizeof buf - 2;
        buf[n++] = '\n';
        raw3(SYS_write, g_input.trace_fd, (long)buf, n);
    }

    static void fill_result()
    {
        RunResult& r = *g_res;
        r.steps = g_steps;
        r.vtime = g_now;
        r.hash = g_hash;
        r.sched_hash = g_shash;
    }
    [[noreturn]] static void die(u32 status)
    {
        fill_result();
        __atomic_store_n(&g_res->status, status, __ATOMIC_SEQ_CST);
        raw3(SYS_exit_group, status == S_Ok ? 0 : 1, 0, 0);
        __builtin_unreachable();
    }
    void violation(const char* cls, const char* fmt, ...)
    {
        ++g_in;
        strncpy(g_res->cls, cls, sizeof g_res->cls - 1);
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(g_res->msg, sizeof g_res->msg, fmt, ap);
        va_end(ap);
        tracef("VIOLATION %s: %s", cls, g_res->msg);
        die(S_Violation);
    }
    void sim_error(const char* fmt, ...)
    {
        ++g_in;
        strcpy(g_res->cls, "sim-error");
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(g_res->msg, sizeof g_res->msg, fmt, ap);
        va_end(ap);
        tracef("SIM ERROR: %s", g_res->msg);
        die(S_SimError);
    }
    void finish_run()
    {
        ++g_in;
        tracef("run finished");
        die(S_Ok);
    }

    // ---- events ------------------------------------------------------------------------------------------------------
    struct Ev
    {
        u64 t, seq;
        void (*fn)(void*);
        void* arg;
        bool operator<(const Ev& o) const { return t != o.t ? t > o.t : seq > o.seq; }
    };
    static std::priority_queue<Ev>* g_events;
    static u64 g_evseq = 0;
    static u64 g_next_event = ~0ull;
    void at(u64 t, void (*fn)(void*), void* arg)
    {
        In in;
        if (t < g_now) t = g_now;
        g_events->push({t, g_evseq++, fn, arg});
        g_next_event = g_events->top().t;
    }
    static void run_due_events()
    {
        const bool save = g_kernel_ctx;
        g_kernel_ctx = true;
        while (!g_events->empty() && g_events->top().t <= g_now)
        {
            Ev e = g_events->top();
            g_events->pop();
            e.fn(e.arg);
        }
        g_next_event = g_events->empty() ? ~0ull : g_events->top().t;
        g_kernel_ctx = save;
    }
    static bool advance_clock()
    {
        if (g_events->empty()) return false;
        const u64 t = g_events->top().t;
        if (t > g_now) g_now = t;
        if (g_now > g_policy.max_time) violation("no-progress", "simulated time limit reached (%.1f s): the system never becomes idle", double(g_now) / 1e9);
        run_due_events();
        return true;
    }

    // ---- fibers ------------------------------------------------------------------------------------------------------
    extern "C" void sim_switch(void** save_sp, void* to_sp, void* fsbase);
    asm(R"(
.text
.globl sim_switch
.hidden sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    wrfsbase %rdx
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch,.-sim_switch
)");

    static void* current_fs()
    {
        void* p;
        asm volatile("movq %%fs:0, %0" : "=r"(p));
        return p;
    }

    static void switch_to(Fiber* to)
    {
        Fiber* from = g_cur;
        if (to == from) return;
        g_res->switches++;
        g_run_streak = 0;
        g_shash = (g_shash ^ (u64(to->id) * 0x9e3779b97f4a7c15ull + from->local)) * 1099511628211ull;
        hash_event(to->id + 1000);
        if (g_tracing) tracef("switch T%d -> T%d%s", from->id, to->id, from->state == FState::Runnable ? " (preempt)" : "");
        const int save_in = g_in;
        g_cur = to;
        sim_switch(&from->sp, to->sp, to->tcb);
        g_in = save_in;
    }

    static void fiber_main()
    {
        Fiber* f = g_cur;
        static void (*ctype_init)() = nullptr;
        if (!ctype_init) ctype_init = (void (*)())dlsym(RTLD_DEFAULT, "__ctype_init");
        if (ctype_init) ctype_init();
        g_in = 0;
        void* r = f->fn(f->arg);
        fiber_exit(r);
    }

    static void prepare_stack(Fiber* f)
    {
        char* st = stack_alloc(f->id);
        f->stack_lo = st;
        // guard page
        raw3(SYS_mprotect, (long)st, 4096, PROT_NONE);
        u64* sp = (u64*)(st + kStackSize - 64);
        *--sp = 0;                   // fake return address (alignment)
        *--sp = (u64)&fiber_main;    // ret target
        for (int i = 0; i < 6; ++i) *--sp = 0;
        f->sp = sp;
    }

    static void* new_tcb()
    {
        static void* (*alloc_tls)(void*) = nullptr;
        if (!alloc_tls) alloc_tls = (void* (*)(void*))dlsym(RTLD_DEFAULT, "_dl_allocate_tls");
        if (!alloc_tls) sim_error("no _dl_allocate_tls");
        char* tcb = (char*)alloc_tls(nullptr);
        char* cur = (char*)current_fs();
        *(void**)(tcb + 0) = tcb;
        *(void**)(tcb + 0x10) = tcb;
        *(u32*)(tcb + 0x18) = 1;  // multiple_threads
        *(u64*)(tcb + 0x28) = *(u64*)(cur + 0x28);
        *(u64*)(tcb + 0x30) = *(u64*)(cur + 0x30);
        return tcb;
    }

    int fiber_create(void* (*fn)(void*), void* arg)
    {
        In in;
        if (g_nfibers >= kMaxFibers - 1) sim_error("too many simulated threads");
        Fiber* f = &g_fibers[g_nfibers];
        f->id = g_nfibers++;
        f->fn = fn;
        f->arg = arg;
        f->tcb = new_tcb();
        prepare_stack(f);
        race_fiber_start(f, g_cur);
        f->state = FState::Runnable;
        if (g_policy.mode == 1) f->prio = g_input.replay ? 0 : i64(rnd() % 1000000) + 1000;
        g_resched = true;
        tracef("create T%d", f->id);
        return f->id;
    }

    static Fiber* default_next(Fiber* from)
    {
        for (int k = 1; k <= g_nfibers; ++k)
        {
            Fiber* f = &g_fibers[(from->id + k) % g_nfibers];
            if (f->state == FState::Runnable && f != from) return f;
        }
        return from->state == FState::Runnable ? from : nullptr;
    }
    static int count_runnable(Fiber* except)
    {
        int n = 0;
        for (int i = 0; i < g_nfibers; ++i)
            if (g_fibers[i].state == FState::Runnable && &g_fibers[i] != except) ++n;
        return n;
    }
    static Fiber* random_runnable(Fiber* except)
    {
        const int n = count_runnable(except);
        if (!n) return nullptr;
        int k = int(rnd() % u64(n));
        for (int i = 0; i < g_nfibers; ++i)
            if (g_fibers[i].state == FState::Runnable && &g_fibers[i] != except && k-- == 0) return &g_fibers[i];
        return nullptr;
    }
    // Priorities are strict only for so long: every runnable thread runs eventually.
    static u64 g_fair_at = 0;
    static void fair_boost()
    {
        g_fair_at = g_steps + 30000;
        if (Fiber* t = random_runnable(nullptr))
        {
            t->prio = ++g_pct_high;
            g_resched = true;
        }
    }
    static Fiber* top_prio(Fiber* except)
    {
        Fiber* best = nullptr;
        for (int i = 0; i < g_nfibers; ++i)
        {
            Fiber* f = &g_fibers[i];
            if (f->state == FState::Runnable && f != except && (!best || f->prio > best->prio)) best = f;
        }
        return best;
    }

    [[noreturn]] static void report_hang()
    {
        std::string s;
        for (int i = 0; i < g_nfibers; ++i)
        {
            Fiber* f = &g_fibers[i];
            if (f->state != FState::Blocked) continue;
            char b[128];
            snprintf(b, sizeof b, " T%d:%s", i, f->blocked_on);
            s += b;
        }
        violation("hang", "nothing can run and nothing is pending; blocked threads:%s", s.c_str());
    }

    // current fiber cannot continue: choose another
    static void schedule_away()
    {
        Fiber* from = g_cur;
        g_steps++;
        from->local++;
        for (;;)
        {
            if (g_now >= g_next_event) run_due_events();
            if (from->state == FState::Runnable && count_runnable(from) == 0) return;
            if (count_runnable(nullptr) > 0) break;
            if (g_settler && (g_events->empty() || g_events->top().t > g_now + g_settle_horizon))
            {
                Fiber* s = g_settler;
                g_settler = nullptr;
                wake(s);
                continue;
            }
            if (!advance_clock()) report_hang();
        }
        Fiber* def = default_next(from);
        Fiber* to = def;
        const u64 idx = from->local;
        if (g_input.replay)
        {
            const u64 v = replay_lookup(Sched, from->id, idx);
            if (v && v - 1 < u64(g_nfibers) && g_fibers[v - 1].state == FState::Runnable) to = &g_fibers[v - 1];
        }
        else
        {
            if (g_policy.mode == 1 && g_steps >= g_fair_at) fair_boost();
            to = g_policy.mode == 1 ? top_prio(nullptr) : random_runnable(nullptr);
        }
        if (to != def) record(dec_key(Sched, from->id, idx), to->id + 1);
        g_resched = false;
        switch_to(to);
    }

    void sched_point(u32 kind)
    {
        if (g_in || !g_running) return;
        In in;
        Fiber* f = g_cur;
        f->local++;
        g_steps++;
        g_now += g_policy.ns_per_step;
        g_hash = (g_hash ^ (u64(f->id) << 8 ^ kind)) * 1099511628211ull;
        if (g_now >= g_next_event) run_due_events();
        if (g_steps > g_policy.max_steps) violation("no-progress", "step limit %llu reached in T%d", (unsigned long long)g_policy.max_steps, f->id);
        Fiber* to = nullptr;
        if (g_input.replay)
        {
            const u64 v = replay_lookup(Sched, f->id, f->local);
            if (v >= 1000)
            {
                record(dec_key(Sched, f->id, f->local), v);
                g_res->faults[F_ThreadStall]++;
                tracef("stall %llu ns", (unsigned long long)(v - 1000));
                block("stalled", 0, g_now + (v - 1000) + 1);
                return;
            }
            if (v && v - 1 < u64(g_nfibers) && g_fibers[v - 1].state == FState::Runnable) to = &g_fibers[v - 1];
        }
        else
        {
            switch (g_policy.mode)
            {
                case 0:
                    if (g_preempt_in == 0)
                    {
                        const double u = 1.0 - rnd01();
                        g_preempt_in = 1 + u64(std::log(u) / std::log(1.0 - g_policy.preempt));
                    }
                    if (--g_preempt_in == 0)
                    {
                        if (g_rate[F_ThreadStall] > 0 && g_faults_on && rnd01() < g_rate[F_ThreadStall])
                        {
                            static const u64 kDur[] = {2000, 20000, 200000, 2000000, 30000000};
                            const u64 d = kDur[rnd() % 5] + rnd() % 1000;
                            record(dec_key(Sched, f->id, f->local), 1000 + d);
                            g_res->faults[F_ThreadStall]++;
                            tracef("stall %llu ns", (unsigned long long)d);
                            block("stalled", 0, g_now + d + 1);
                            return;
                        }
                        to = random_runnable(f);
                    }
                    break;
                case 1:
                    if (g_pct_next < g_pct_points->size() && g_steps >= (*g_pct_points)[g_pct_next])
                    {
                        ++g_pct_next;
                        f->prio = --g_pct_low;
                        g_resched = true;
                    }
                    if (++g_run_streak > 20000)
                    {
                        f->prio = --g_pct_low;
                        g_resched = true;
                        g_run_streak = 0;
                    }
                    if (g_steps >= g_fair_at) fair_boost();
                    if (g_resched)
                    {
                        g_resched = false;
                        Fiber* t = top_prio(nullptr);
                        if (t && t != f && t->prio > f->prio) to = t;
                    }
                    break;
                default: break;
            }
        }
        if (to && to != f)
        {
            record(dec_key(Sched, f->id, f->local), to->id + 1);
            switch_to(to);
        }
    }
    void maybe_resched() { g_resched = true; }

    struct TimerArg
    {
        Fiber* f;
        u64 gen;
    };
    static void timer_fire(void* a)
    {
        TimerArg* t = (TimerArg*)a;
        if (t->f->state == FState::Blocked && t->f->wait_gen == t->gen)
        {
            t->f->timed_out = true;
            wake(t->f);
        }
    }
    bool block(const char* what, u64 key, u64 deadline)
    {
        In in;
        Fiber* f = g_cur;
        f->state = FState::Blocked;
        f->blocked_on = what;
        f->wait_key = key;
        f->timed_out = false;
        f->wait_gen++;
        if (deadline) at(deadline, timer_fire, new TimerArg{f, f->wait_gen});
        if (g_tracing) tracef("block on %s", what);
        schedule_away();
        f->blocked_on = "";
        f->wait_key = 0;
        return !f->timed_out;
    }
    void wake(Fiber* f)
    {
        if (f->state != FState::Blocked) return;
        f->state = FState::Runnable;
        f->wait_gen++;
        g_resched = true;
    }
    int wake_key(u64 key, int max)
    {
        int n = 0;
        // FIFO by wait generation order is not tracked; choose by id, starting after the current one, or let the
        // environment choose which waiter wakes first
        for (int i = 0; i < g_nfibers && n < max; ++i)
        {
            Fiber* f = &g_fibers[i];
            if (f->state == FState::Blocked && f->wait_key == key)
            {
                wake(f);
                ++n;
            }
        }
        return n;
    }
    void fiber_exit(void* ret)
    {
        Fiber* f = g_cur;
        // thread_local destructors run as part of the thread
        while (!f->tls_dtors.empty())
        {
            std::pair<void (*)(void*), void*> d;
            {
                In in;
                d = f->tls_dtors.back();
                f->tls_dtors.pop_back();
            }
            d.first(d.second);
        }
        ++g_in;
        f->ret = ret;
        f->state = FState::Finished;
        tracef("exit T%d", f->id);
        if (f->joiner >= 0) wake(&g_fibers[f->joiner]);
        schedule_away();
        sim_error("finished thread resumed");
    }
    void sleep_ns(u64 ns)
    {
        if (!g_running) return;
        In in;
        if (ns == 0)
        {
            --g_in;
            sched_point(2);
            ++g_in;
            return;
        }
        block("sleep", 0, g_now + ns);
    }
    void settle(u64 horizon)
    {
        In in;
        if (g_settler) sim_error("two settlers");
        g_settler = g_cur;
        g_settle_horizon = horizon;
        block("settle", 0, 0);
        g_settler = nullptr;
        view_all();
    }
    void kill_all_but_me()
    {
        In in;
        for (int i = 0; i < g_nfibers; ++i)
            if (&g_fibers[i] != g_cur)
            {
                if (g_fibers[i].state != FState::Finished) g_fibers[i].state = FState::Dead;
                g_cur->vc.join(g_fibers[i].vc);   // what comes now comes after all that
                g_cur->view.join(g_fibers[i].view);
            }
        std::priority_queue<Ev> empty;
        g_events->swap(empty);
        g_next_event = ~0ull;
        g_settler = nullptr;
        pthread_reset();
    }

    void swarm_policy()
    {
        Policy& p = g_policy;
        const u64 m = decide(Conf, 10);
        if (m < 5)
        {
            p.mode = 0;
            static const double pr[] = {0.3, 0.1, 0.03, 0.01, 0.5};
            p.preempt = pr[decide(Conf, 5)];
        }
        else if (m < 9)
        {
            p.mode = 1;
            p.pct_depth = int(range(Conf, 1, 6));
            static const u64 ln[] = {300, 1000, 3000, 10000, 40000};
            p.pct_len = ln[decide(Conf, 5)];
            g_pct_points->clear();
            if (!g_input.replay)
            {
                for (int i = 0; i < p.pct_depth; ++i) g_pct_points->push_back(g_steps + rnd() % p.pct_len);
                std::sort(g_pct_points->begin(), g_pct_points->end());
                for (int i = 0; i < g_nfibers; ++i) g_fibers[i].prio = i64(rnd() % 1000000) + 1000;
            }
        }
        else
            p.mode = 2;
        static const u64 ns[] = {20, 5, 60, 200};
        p.ns_per_step = ns[decide(Conf, 4)];
        if (chance(Conf, 0.25)) set_fault(F_ThreadStall, 0.02);
        if (chance(Conf, 0.25)) set_fault(F_SpuriousCas, 0.05);
    }

    // ---- crashes of the simulated program ------------------------------------------------------------------------------
    static void on_signal(int sig, siginfo_t* si, void* uc)
    {
        ++g_in;
        const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : "signal";
        const u64 pc = (u64)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
        if (g_res->status != S_Running) raw3(SYS_exit_group, 1, 0, 0);
        bool ovf = g_cur && (u64)si->si_addr >= (u64)g_cur->stack_lo && (u64)si->si_addr < (u64)g_cur->stack_lo + 8192;
        char cls[64];
        snprintf(cls, sizeof cls, "crash:%s", ovf ? "stack-overflow" : n);
        if (g_res->msg[0])
        {
            char m[2048];
            strncpy(m, g_res->msg, sizeof m - 1);
            m[sizeof m - 1] = 0;
            violation(cls, "%s (pc %llx)", m, (unsigned long long)pc);
        }
        violation(cls, "%s at pc=%llx addr=%llx in T%d", n, (unsigned long long)pc, (unsigned long long)si->si_addr, g_cur ? g_cur->id : -1);
    }
    static void on_terminate()
    {
        ++g_in;
        std::string what = "no active exception";
        if (std::type_info* t = abi::__cxa_current_exception_type())
        {
            what = t->name();
            try
            {
                throw;
            }
            catch (const std::exception& e)
            {
                what += ": ";
                what += e.what();
            }
            catch (...)
            {
            }
        }
        violation("crash:terminate", "std::terminate called in T%d (%s)", g_cur ? g_cur->id : -1, what.c_str());
    }

    static void* scenario_thread(void*)
    {
        g_input.scen->fn();
        finish_run();
    }

    void run_child(const RunInput& in, RunResult* res)
    {
        g_in = 1;
        g_input = in;
        g_res = res;
        g_tracing = in.trace_fd >= 0;
        u64 s = in.seed;
        for (u64& x: g_s) x = splitmix(s);
        mem_start_run();
        g_events = new std::priority_queue<Ev>();
        g_pct_points = new std::vector<u64>();
        g_streams = new Stream[size_t(DkCount) * kMaxFibers];
        for (u64 i = 0; i < in.ndec; ++i)
        {
            const Dec& d = in.dec[i];
            const u64 k = d.key >> 60, f = (d.key >> 48) & 0xfff;
            if (k < DkCount && f < kMaxFibers) g_streams[k * kMaxFibers + f].v.push_back({d.key & 0xffffffffffffull, d.val});
        }
        if (in.ndec)
            for (int i = 0; i < DkCount * kMaxFibers; ++i) std::stable_sort(g_streams[i].v.begin(), g_streams[i].v.end());
        g_now = 1'000'000'000ull;  // one second after boot
        kernel_start_run();

        static char altstack[65536];
        stack_t ss{};
        ss.ss_sp = altstack;
        ss.ss_size = sizeof altstack;
        sigaltstack(&ss, nullptr);
        struct sigaction sa{};
        sa.sa_sigaction = on_signal;
        sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
        for (int sg: {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) sigaction(sg, &sa, nullptr);
        std::set_terminate(on_terminate);

        Fiber* f = &g_fibers[0];
        f->id = 0;
        f->fn = scenario_thread;
        f->tcb = new_tcb();
        g_nfibers = 1;
        prepare_stack(f);
        race_fiber_start(f, nullptr);
        f->state = FState::Runnable;
        f->prio = 500000;
        g_running = true;
        g_cur = f;
        void* dummy;
        sim_switch(&dummy, f->sp, f->tcb);
        __builtin_unreachable();
    }
}  // namespace sim
