// C10: AsyncBaton. C11: its timed wait.
#include "kio_common.h"
#include "kio/sync/baton.h"

using namespace scen;
using kio::sync::AsyncBaton;

namespace
{
    constexpr u64 kSlack = 2 * sec;   // everything that became possible has happened after this long

    struct Shared
    {
        // oracle state
        u64 started = 0, returned = 0;      // notify calls of this round
        u64 first_return = ~0ull;           // time
        u64 first_start = ~0ull;
        // protocol between the waiter and its notifiers (real synchronisation, as an application would have)
        std::atomic<u64> round{0};
        std::atomic<u64> notifiers_done{0};
        u64 data[4] = {};
        Cell extra[4];
    };
    struct B
    {
        std::unique_ptr<AsyncBaton> baton;
        Shared s;
        Worker* owner = nullptr;
        Worker* other = nullptr;   // where a timed wait may be called from
        u64 rounds = 0, notifiers = 0;
        u64 resumed = 0;
        u64 waiting = 0;
        bool finished = false;
        bool timed = false;
        std::atomic<int> done{0};
    };

    // The notification of one notifier in one round.
    void notify_once(B* b, u64 r, u64 who)
    {
        b->s.extra[who].v = r * 10 + who;
        {
            Quiet q;
            b->s.started++;
            if (b->s.first_start == ~0ull) b->s.first_start = sim::now();
        }
        b->baton->notify();
        {
            Quiet q;
            b->s.returned++;
            if (b->s.first_return == ~0ull) b->s.first_return = sim::now();
        }
        if (wc(0.2)) b->baton->notify();   // idempotent
        b->s.notifiers_done.fetch_add(1, std::memory_order_acq_rel);
    }
    void notifier_thread(B* b, u64 who, u64 early, u64 late)
    {
        for (u64 r = 1; r <= b->rounds; ++r)
        {
            while (b->s.round.load(std::memory_order_acquire) < r) sim::sleep_ns(2000);
            const u64 d = wr(0, 9);
            if (d >= early) sim::sleep_ns(wr(1, late));
            notify_once(b, r, who);
        }
    }
    DetachedTask notifier_coro(B* b, Worker* w, u64 who, u64 late)
    {
        Frame f;
        co_await SwitchToWorker(*w);
        for (u64 r = 1; r <= b->rounds; ++r)
        {
            while (b->s.round.load(std::memory_order_acquire) < r) (void)co_await w->async_sleep(std::chrono::nanoseconds(2000));
            if (wc(0.6)) (void)co_await w->async_sleep(std::chrono::nanoseconds(wr(1, late)));
            notify_once(b, r, who);
        }
    }
    DetachedTask waiter(B* b, u64 late)
    {
        Frame f;
        Tracked local(7);
        co_await SwitchToWorker(*b->owner);
        for (u64 r = 1; r <= b->rounds; ++r)
        {
            SIM_CHECK(!b->baton->ready(), "baton:state", "ready before any notification");
            const bool release_first = wc(0.5);
            if (release_first) b->s.round.store(r, std::memory_order_release);
            if (wc(0.3)) (void)co_await b->owner->async_sleep(std::chrono::nanoseconds(wr(1, late)));
            // (the others may start only once we wait; a thread cannot observe that, so half the time they start before)
            if (!release_first) b->s.round.store(r, std::memory_order_release);
            {
                Quiet q;
                b->waiting++;
            }
            co_await b->baton->wait();
            SIM_CHECK(b->owner->is_on_worker_thread(), "baton:wrong-thread", "waiter resumed on another thread than its owner's");
            {
                Quiet q;
                b->resumed++;
                SIM_CHECK(b->resumed == b->waiting, "baton:resumed-twice", "resumed %llu times in %llu waits", (unsigned long long)b->resumed, (unsigned long long)b->waiting);
                SIM_CHECK(b->s.started > 0, "baton:spurious", "waiter resumed although nobody notified");
                SIM_CHECK(sim::now() <= b->s.first_start + kSlack + late, "baton:late", "resumed late");
            }
            SIM_CHECK(local.value() == 7, "baton:frame", "frame changed");
            // (checked before anything else that synchronises with the notifier)
            if (b->notifiers == 1) SIM_CHECK(b->s.extra[0].v == r * 10, "baton:visibility", "writes before notify are not visible to the waiter");
            SIM_CHECK(b->baton->ready(), "baton:state", "not ready after the notification");
            if (wc(0.2)) co_await b->baton->wait();   // still set: does not suspend for long
            while (b->s.notifiers_done.load(std::memory_order_acquire) < b->notifiers * r) (void)co_await b->owner->async_sleep(std::chrono::nanoseconds(3000));
            for (u64 i = 0; i < b->notifiers; ++i) SIM_CHECK(b->s.extra[i].v == r * 10 + i, "baton:visibility", "writes of a notifier are not visible");
            {
                Quiet q;
                b->s.started = b->s.returned = 0;
                b->s.first_start = b->s.first_return = ~0ull;
            }
            b->baton->reset();
        }
        {
            Quiet q;
            b->finished = true;
        }
        b->done.store(1, std::memory_order_release);
    }
    // One use only, the baton dies as soon as the waiter resumed: what notify may touch afterwards must not be the baton.
    struct Note
    {
        std::atomic<bool> sent{false};
        bool returned = false;
    };
    DetachedTask one_shot(Worker* owner, std::atomic<AsyncBaton*>* pub, bool* fin, u64 early, bool timed)
    {
        Frame f;
        co_await SwitchToWorker(*owner);
        auto* b = new AsyncBaton(*owner);
        pub->store(b, std::memory_order_release);
        if (early) (void)co_await owner->async_sleep(std::chrono::nanoseconds(early));
        if (timed)
            (void)co_await b->wait_for(std::chrono::seconds(1000));
        else
            co_await b->wait();
        delete b;
        Quiet q;
        *fin = true;
    }

    // ---- timed -----------------------------------------------------------------------------------------------------
    DetachedTask timed_waiter(B* b, u64 late, bool scarce)
    {
        Frame f;
        Tracked local(9);
        if (wc(0.5)) co_await SwitchToWorker(*b->owner);
        for (u64 r = 1; r <= b->rounds; ++r)
        {
            co_await SwitchToWorker(*b->owner);
            b->s.round.store(r, std::memory_order_release);
            if (wc(0.3)) (void)co_await b->owner->async_sleep(std::chrono::nanoseconds(wr(1, late)));
            bool got = false;
            u64 guard = 0;
            while (!got)
            {
                u64 dur;
                switch (wr(0, 5))
                {
                    case 0: dur = 0; break;
                    case 1: dur = wr(1, 1000); break;
                    case 2: dur = wr(1, late * 4); break;
                    case 3: dur = 3600 * sec; break;
                    default: dur = wr(late / 2, late * 2); break;
                }
                if (++guard > 40) dur = 3600 * sec;
                u64 t0;
                {
                    Quiet q;
                    b->waiting++;
                    t0 = sim::now();
                }
                bool hopped = false;
                if (b->other != b->owner && wc(0.3))
                {
                    // a timed wait may be called from anywhere, it moves to the owner by itself
                    co_await SwitchToWorker(*b->other);
                    hopped = true;
                    if (wc(0.3)) sim::sleep_ns(wr(1, late));
                }
                if (!hopped && wc(0.1))
                {
                    co_await b->baton->wait();
                    got = true;
                }
                else
                    got = co_await b->baton->wait_for(std::chrono::nanoseconds(dur));
                {
                    Quiet q;
                    const u64 t = sim::now();
                    b->resumed++;
                    SIM_CHECK(b->resumed == b->waiting, "baton:resumed-twice", "resumed %llu times in %llu waits", (unsigned long long)b->resumed, (unsigned long long)b->waiting);
                    if (got)
                    {
                        SIM_CHECK(b->s.started > 0, "baton:spurious", "reported a signal although nobody notified");
                        SIM_CHECK(t <= std::max(t0, b->s.first_start) + kSlack, "baton:late", "signal reported late");
                    }
                    else
                    {
                        if (!scarce)
                        {
                            SIM_CHECK(t >= t0 + dur, "baton:early-timeout", "timed out %llu ns early", (unsigned long long)(t0 + dur - t));
                            SIM_CHECK(!(b->s.first_return < t0 + dur), "baton:missed-signal", "reported a timeout although the baton had been notified %llu ns before the deadline", (unsigned long long)(t0 + dur - b->s.first_return));
                        }
                        else
                            SIM_CHECK(!(b->s.first_return < t0), "baton:missed-signal", "reported a timeout although the baton had been notified before the wait");
                        SIM_CHECK(t <= t0 + dur + kSlack, "baton:late", "timeout reported late");
                        sim::probe("timed out");
                    }
                    sim::note_nontrivial();
                }
                SIM_CHECK(b->owner->is_on_worker_thread(), "baton:wrong-thread", "resumed on another thread than its owner's");
                SIM_CHECK(local.value() == 9, "baton:frame", "frame changed");
                if (got && b->notifiers == 1) SIM_CHECK(b->s.extra[0].v == r * 10, "baton:visibility", "writes before notify are not visible");
                if (!got && wc(0.2)) (void)co_await b->owner->async_sleep(std::chrono::nanoseconds(wr(1, late)));
            }
            while (b->s.notifiers_done.load(std::memory_order_acquire) < b->notifiers * r) (void)co_await b->owner->async_sleep(std::chrono::nanoseconds(3000));
            {
                Quiet q;
                b->s.started = b->s.returned = 0;
                b->s.first_start = b->s.first_return = ~0ull;
            }
            b->baton->reset();
        }
        {
            Quiet q;
            b->finished = true;
        }
        b->done.store(1, std::memory_order_release);
    }
    // Occupies the worker for a while, so that timers and posts pile up.
    DetachedTask hog(Worker* w, u64 n)
    {
        Frame f;
        co_await SwitchToWorker(*w);
        for (u64 i = 0; i < n; ++i)
        {
            sim::sleep_ns(wr(1, 40000));
            (void)co_await w->async_sleep(std::chrono::nanoseconds(wr(1, 20000)));
        }
    }

    void run(bool timed)
    {
        setup(timed ? 0.1 : 0.25);
    LeakCheck leak;
        const u64 nw = wr(1, 2);
        const u64 nb = wr(1, 3);
        WorkerConfig cfg;
        cfg.task_queue_capacity = 64;
        cfg.uring_queue_depth = 64;
        cfg.default_op_slots = 64;
        auto* pool = new IOPool(nw, cfg);
        const u64 late = 1000ull << wr(0, 6);
        std::vector<std::unique_ptr<B>> bs;
        std::vector<std::thread> th;
        for (u64 i = 0; i < nb; ++i)
        {
            auto b = std::make_unique<B>();
            b->owner = pool->get_worker(wr(0, nw - 1));
            b->other = pool->get_worker(wr(0, nw - 1));
            b->baton = std::make_unique<AsyncBaton>(*b->owner);
            b->rounds = wr(1, 4);
            b->notifiers = wr(1, 3);
            bs.push_back(std::move(b));
        }
        for (u64 i = 0; i < nb; ++i)
        {
            B* b = bs[i].get();
            if (timed)
                timed_waiter(b, late, false).detach();
            else
                waiter(b, late).detach();
            if (timed && wc(0.5)) hog(b->owner, wr(1, 10)).detach();
            for (u64 k = 0; k < b->notifiers; ++k)
            {
                if (wc(0.3))
                    notifier_coro(b, pool->get_worker(wr(0, nw - 1)), k, late).detach();
                else
                {
                    const u64 early = wr(0, 10);
                    th.emplace_back([b, k, early, late] { notifier_thread(b, k, early, late); });
                }
            }
        }
        // batons that die with their waiter
        const u64 shots = wr(0, 2);
        std::vector<std::unique_ptr<std::atomic<AsyncBaton*>>> pubs;
        std::unique_ptr<bool[]> fins(new bool[shots + 1]());
        for (u64 i = 0; i < shots; ++i)
        {
            pubs.push_back(std::make_unique<std::atomic<AsyncBaton*>>(nullptr));
            auto* pub = pubs.back().get();
            one_shot(pool->get_worker(wr(0, nw - 1)), pub, &fins[i], wc(0.5) ? wr(1, 3000) : 0, timed && wc(0.7)).detach();
            th.emplace_back([pub, late] {
                AsyncBaton* b;
                while (!(b = pub->load(std::memory_order_acquire))) sim::sleep_ns(500);
                if (wc(0.5)) sim::sleep_ns(wr(1, late));
                b->notify();
            });
        }
        for (auto& t: th) t.join();
        sim::settle(10 * sec);
        {
            Quiet q;
            for (u64 i = 0; i < nb; ++i)
                SIM_CHECK(bs[i]->finished, "baton:lost", "a waiter was not resumed: %llu waits, %llu resumed, %llu notifications started, %llu returned", (unsigned long long)bs[i]->waiting, (unsigned long long)bs[i]->resumed,
                          (unsigned long long)bs[i]->s.started, (unsigned long long)bs[i]->s.returned);
            for (u64 i = 0; i < shots; ++i) SIM_CHECK(fins[i], "baton:lost", "a waiter of a short-lived baton was not resumed");
            sim::note_nontrivial();
        }
        for (auto& b: bs) SIM_CHECK(b->done.load(std::memory_order_acquire) == 1, "baton:lost", "a waiter did not finish");
        bs.clear();
        if (timed)
        {
            // timers of signalled waits fire long after wait and baton are gone
            sim::settle(4000 * sec);
            delete pool;
            Quiet q;
            SIM_CHECK(Frame::live == 0, "baton:frame-leak", "%lld frames leaked", (long long)Frame::live);
        }
        else
        {
            delete pool;
            Quiet q;
            SIM_CHECK(Frame::live == 0, "baton:frame-leak", "%lld frames leaked", (long long)Frame::live);
        }
    }

    // ---- timed waits whose timer cannot be armed, in loops that go on until the worker did something else ------------
    struct Poll
    {
        Worker* w;
        AsyncBaton* b;
        bool stop = false, notified = false;      // only touched on the worker
        std::atomic<bool> sent{false};
        u64 early = 0, waits = 0;
        std::atomic<int> done{0};
    };
    DetachedTask filler(Poll* p, u64 ns)
    {
        Frame f;
        co_await SwitchToWorker(*p->w);
        try
        {
            (void)co_await p->w->async_sleep(std::chrono::nanoseconds(ns));
        }
        catch (const std::runtime_error&)
        {
        }
        p->done.fetch_add(1, std::memory_order_acq_rel);
    }
    DetachedTask poller(Poll* p, u64 dur)
    {
        Frame f;
        co_await SwitchToWorker(*p->w);
        while (!p->stop)
        {
            u64 t0;
            {
                Quiet q;
                t0 = sim::now();
            }
            const bool got = co_await p->b->wait_for(std::chrono::nanoseconds(dur));
            SIM_CHECK(p->w->is_on_worker_thread(), "baton:wrong-thread", "resumed on another thread than its owner's");
            if (got)
            {
                SIM_CHECK(p->sent.load(std::memory_order_acquire), "baton:spurious", "reported a signal although nobody notified");
                p->notified = true;
                p->b->reset();
            }
            Quiet q;
            ++p->waits;
            SIM_CHECK(sim::now() <= t0 + dur + kSlack, "baton:late", "a timed wait took too long");
            if (!got && sim::now() < t0 + dur) ++p->early, sim::probe("timed out without a timer");
        }
        p->done.fetch_add(1, std::memory_order_acq_rel);
    }
    DetachedTask stopper(Poll* p)
    {
        Frame f;
        co_await SwitchToWorker(*p->w);
        p->stop = true;
        p->done.fetch_add(1, std::memory_order_acq_rel);
    }
    void run_scarce()
    {
        setup(0.1);
        WorkerConfig cfg;
        cfg.task_queue_capacity = 64;
        const bool slots = wc(0.5);
        cfg.uring_queue_depth = slots ? 64 : wr(1, 4);
        cfg.max_op_slots = slots ? wr(1, 4) : 1024;
        cfg.default_op_slots = slots ? wr(1, cfg.max_op_slots) : 8;
        auto* pool = new IOPool(1, cfg);
        Poll p;
        p.w = pool->get_worker(0);
        AsyncBaton b(*p.w);
        p.b = &b;
        const int n = int(wr(1, 8));
        const bool last = wc(0.5);
        const u64 dur = wc(0.3) ? wr(0, 100) : wr(1000, 100000);
        if (!last) poller(&p, dur).detach();
        for (int i = 0; i < n; ++i) filler(&p, wr(1000, 300000)).detach();
        if (last) poller(&p, dur).detach();
        if (wc(0.6)) sim::sleep_ns(wr(1, 200000));
        if (wc(0.4))
        {
            p.sent.store(true, std::memory_order_release);
            b.notify();
        }
        if (wc(0.6)) sim::sleep_ns(wr(1, 200000));
        stopper(&p).detach();
        sim::settle(10 * sec);
        SIM_CHECK(p.done.load(std::memory_order_acquire) == n + 2, "baton:lost", "%d of %d coroutines ended", p.done.load(), n + 2);
        delete pool;
        Quiet q;
        SIM_CHECK(Frame::live == 0, "baton:frame-leak", "%lld frames leaked", (long long)Frame::live);
        if (p.early) sim::note_nontrivial();
    }
}  // namespace

SIM_SCENARIO(baton_scarce) { run_scarce(); }
SIM_SCENARIO(baton) { run(false); }
SIM_SCENARIO(baton_timed) { run(true); }
