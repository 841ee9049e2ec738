// C07: async_sleep.
#include "net_common.h"

using namespace scen;

namespace
{
    struct Sleeper
    {
        u64 id;
        Worker* w;
        u64 n;
        u64 done = 0;          // oracle
        bool finished = false;
        u64 issued = 0, due = 0;
        u64 wakes = 0;
    };
    std::chrono::nanoseconds some_duration()
    {
        switch (wr(0, 7))
        {
            case 0: return std::chrono::nanoseconds(0);
            case 1: return std::chrono::nanoseconds(wr(1, 999));
            case 2: return std::chrono::nanoseconds(wr(1, 999'999));
            case 3: return std::chrono::milliseconds(wr(1, 50));
            case 4: return std::chrono::nanoseconds(wr(1, 3'000'000'000ull));
            case 5: return std::chrono::seconds(wr(1, 3)) + std::chrono::nanoseconds(wr(0, 2) * 499'999'999);
            case 6: return std::chrono::minutes(wr(1, 90)) + std::chrono::milliseconds(wr(0, 999));
            default: return std::chrono::hours(wr(1, 3)) - std::chrono::nanoseconds(wr(0, 1) * wr(0, 1'000'000'000));
        }
    }
    void note_issue(Sleeper* c, u64 d)
    {
        Quiet q;
        c->issued = sim::now();
        c->due = c->issued + d;
        c->wakes = 0;
    }
    void note_wake(Sleeper* c, u64 d, bool ok)
    {
        Quiet q;
        const u64 t = sim::now();
        SIM_CHECK(++c->wakes == 1, "sleep:twice", "a sleeper woke %llu times for one sleep", (unsigned long long)c->wakes);
        SIM_CHECK(ok, "sleep:failed", "a sleep of %llu ns reported an error", (unsigned long long)d);
        SIM_CHECK(t >= c->due, "sleep:early", "a sleep of %llu ns ended after %llu ns", (unsigned long long)d, (unsigned long long)(t - c->issued));
        SIM_CHECK(t <= c->due + 2 * sec, "sleep:late", "a sleep of %llu ns ended after %llu ns", (unsigned long long)d, (unsigned long long)(t - c->issued));
        c->done++;
        sim::note_nontrivial();
    }
    DetachedTask sleeper(Sleeper* c)
    {
        Frame f;
        co_await SwitchToWorker(*c->w);
        for (u64 k = 0; k < c->n; ++k)
        {
            const auto d = some_duration();
            note_issue(c, u64(d.count()));
            auto r = co_await c->w->async_sleep(d);
            SIM_CHECK(c->w->is_on_worker_thread(), "sleep:wrong-thread", "woke on another thread than its worker's");
            note_wake(c, u64(d.count()), r.has_value());
        }
        Quiet q;
        c->finished = true;
    }
    struct Noise
    {
        Worker* w;
        int fd;
        bool done = false;
    };
    // a read that stays pending while others sleep
    DetachedTask pending_read(Noise* n)
    {
        Frame f;
        co_await SwitchToWorker(*n->w);
        char b[16];
        for (;;)
        {
            auto r = co_await n->w->async_read(n->fd, std::span<char>(b, sizeof b));
            if (!r || *r == 0) break;
        }
        Quiet q;
        n->done = true;
    }
}  // namespace

SIM_SCENARIO(sleep)
{
    setup(0.03);
    LeakCheck leak;
    const u64 nw = wr(1, 2);
    WorkerConfig cfg;
    cfg.uring_queue_depth = pow2(5, 7);
    cfg.default_op_slots = wc(0.2) ? wr(1, 4) : 64;
    cfg.task_queue_capacity = 64;
    auto* pool = new IOPool(nw, cfg);
    if (sim::chance(Conf, 0.3)) sim::set_fault(sim::F_TimerLate, 0.3);
    if (sim::chance(Conf, 0.2)) sim::set_fault(sim::F_SubmitEintr, 0.1);
    if (sim::chance(Conf, 0.2)) sim::set_fault(sim::F_PartialSubmit, 0.1);
    std::vector<std::unique_ptr<Sleeper>> cs;
    const u64 n = wr(1, 12);
    for (u64 i = 0; i < n; ++i)
    {
        auto c = std::make_unique<Sleeper>();
        c->id = i;
        c->w = pool->get_worker(wr(0, nw - 1));
        c->n = wr(1, 4);
        cs.push_back(std::move(c));
    }
    std::vector<std::unique_ptr<Noise>> noise;
    std::vector<int> wr_ends;
    for (u64 i = 0, k = wr(0, 2); i < k; ++i)
    {
        int p[2];
        if (::pipe(p) != 0) sim::sim_error("pipe");
        noise.push_back(std::make_unique<Noise>(Noise{pool->get_worker(wr(0, nw - 1)), p[0]}));
        wr_ends.push_back(p[1]);
    }
    for (auto& x: noise) pending_read(x.get()).detach();
    for (auto& c: cs)
    {
        sleeper(c.get()).detach();
        if (wc(0.3)) sim::sleep_ns(wr(1, 5'000'000));
    }
    // meanwhile: wall-clock jumps, I/O, idle time
    for (u64 i = 0, k = wr(0, 10); i < k; ++i)
    {
        sim::sleep_ns(wr(1, wc(0.5) ? 2'000'000'000ull : 20'000'000ull));
        if (sim::chance(Env, 0.5))
        {
            const i64 big = i64(sim::decide(Env, 3'600'000'000'000ull * 30));
            sim::jump_wall_clock(sim::chance(Env, 0.5) ? -big : big);
        }
        for (int fd: wr_ends)
            if (wc(0.5)) (void)!::write(fd, "x", 1);
    }
    sim::settle(50000 * sec);
    {
        Quiet q;
        for (auto& c: cs)
            SIM_CHECK(c->finished, "sleep:lost", "a sleeper never woke (%llu of %llu sleeps done)", (unsigned long long)c->done, (unsigned long long)c->n);
    }
    for (int fd: wr_ends) ::close(fd);
    sim::settle(5 * sec);
    {
        Quiet q;
        for (auto& x: noise) SIM_CHECK(x->done, "sleep:other-io", "other I/O of the worker was disturbed");
    }
    delete pool;
    for (auto& x: noise) ::close(x->fd);
    Quiet q;
    SIM_CHECK(Frame::live == 0, "sleep:frame-leak", "%lld frames leaked", (long long)Frame::live);
}
