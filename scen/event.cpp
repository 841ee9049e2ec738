// C12: AsyncEvent. C13: when_any.
#include "kio_common.h"
#include "kio/sync/event.h"
#include "kio/sync/when_any.h"

using namespace scen;
using kio::sync::AsyncEvent;

namespace
{
    constexpr u64 kSlack = 2 * sec;
    struct E
    {
        std::unique_ptr<AsyncEvent> ev;
        Worker* owner = nullptr;
        std::atomic<u64> waiters_done{0};
        u64 payload = 0;
        // oracle
        bool started = false, returned = false;
        u64 start_time = 0;
        u64 waits = 0, resumes = 0;
    };
    // One wait; the frame (with the awaiter inside) is freed right after it resumes.
    Task<void> wait_once(E* e, u64 round)
    {
        Frame f;
        Tracked local(round);
        bool was_set;
        bool mine = false;
        const auto before = std::this_thread::get_id();
        u64 t0;
        {
            Quiet q;
            was_set = e->returned;
            e->waits++;
            t0 = sim::now();
        }
        co_await e->ev->wait();
        {
            Quiet q;
            if (was_set) sim::probe("the event was already set");
            SIM_CHECK(!mine, "event:resumed-twice", "a waiter was resumed twice");
            mine = true;
            e->resumes++;
            SIM_CHECK(e->resumes <= e->waits, "event:resumed-twice", "more resumptions than waits");
            SIM_CHECK(e->started, "event:spurious", "a waiter resumed although nobody notified");
            SIM_CHECK(sim::now() <= std::max(t0, e->start_time) + kSlack, "event:late", "a waiter resumed late");
        }
        if (was_set)
            SIM_CHECK(std::this_thread::get_id() == before, "event:suspended-while-set", "waiting on a set event moved the coroutine to another thread");
        else
            SIM_CHECK(e->owner->is_on_worker_thread() || std::this_thread::get_id() == before, "event:wrong-thread", "a waiter resumed on a thread that is neither its own nor the owner");
        SIM_CHECK(local.value() == round, "event:frame", "frame changed");
        SIM_CHECK(e->payload == round, "event:visibility", "writes before notify are not visible");
        SIM_CHECK(e->ev->is_set(), "event:state", "not set after the notification");
    }
    [[gnu::noinline]] void publish(E* e, u64 round)
    {
        asm volatile("" ::: "memory");
        e->payload = round;
        asm volatile("" ::: "memory");
    }
    DetachedTask event_waiter(E* e, u64 round, u64 n, Worker* w, u64 late)
    {
        Frame f;
        if (w) co_await SwitchToWorker(*w);
        if (w && wc(0.5)) (void)co_await w->async_sleep(std::chrono::nanoseconds(wr(1, late)));
        for (u64 i = 0; i < n; ++i) co_await wait_once(e, round);
        e->waiters_done.fetch_add(1, std::memory_order_acq_rel);
    }
}  // namespace

SIM_SCENARIO(event)
{
    setup(0.25);
    LeakCheck leak;
    const u64 nw = wr(1, 2);
    WorkerConfig cfg;
    cfg.task_queue_capacity = 64;
    cfg.uring_queue_depth = 64;
    cfg.default_op_slots = 64;
    auto* pool = new IOPool(nw, cfg);
    const u64 late = 500ull << wr(0, 7);
    const u64 rounds = wr(1, 4);
    // on the heap: stores to an object of this frame could be moved by the compiler and would not be seen as the races they are
    auto eh = std::make_unique<E>();
    E& e = *eh;
    e.owner = pool->get_worker(0);
    e.ev = std::make_unique<AsyncEvent>(*e.owner);
    for (u64 r = 1; r <= rounds; ++r)
    {
        const u64 nwait = wr(1, 12);
        const u64 nthreads = wr(1, 3), nnot = wr(1, 3);
        std::vector<std::thread> th;
        std::atomic<u64> left{nwait};
        const bool fresh = wc(0.4);
        if (fresh) e.ev = std::make_unique<AsyncEvent>(*e.owner);
        {
            Quiet q;
            e.started = e.returned = false;
            e.waits = e.resumes = 0;
        }
        SIM_CHECK(!e.ev->is_set(), "event:state", "set before any notification");
        e.waiters_done.store(0, std::memory_order_relaxed);
        for (u64 t = 0; t < nthreads; ++t)
            th.emplace_back([&, r] {
                for (;;)
                {
                    u64 l = left.load(std::memory_order_relaxed);
                    if (!l) return;
                    if (!left.compare_exchange_strong(l, l - 1)) continue;
                    if (wc(0.3)) sim::sleep_ns(wr(1, late));
                    event_waiter(&e, r, wr(1, 2), wc(0.5) ? pool->get_worker(wr(0, nw - 1)) : nullptr, late).detach();
                }
            });
        // the payload is published before anybody notifies, sometimes after waiters have registered
        if (wc(0.4)) sim::sleep_ns(wr(1, 4 * late));
        publish(&e, r);
        SIM_CHECK(!e.ev->is_set(), "event:state", "set before any notification");
        for (u64 t = 0; t < nnot; ++t)
            th.emplace_back([&] {
                sim::sleep_ns(wr(0, 1) ? wr(1, late) : 1);
                {
                    Quiet q;
                    if (!e.started) e.start_time = sim::now();
                    e.started = true;
                }
                e.ev->notify();
                {
                    Quiet q;
                    e.returned = true;
                }
                SIM_CHECK(e.ev->is_set(), "event:state", "not set after notify");
            });
        for (auto& t: th) t.join();
        sim::settle(5 * sec);
        {
            Quiet q;
            SIM_CHECK(e.resumes == e.waits, "event:lost", "%llu of %llu waiters were not released", (unsigned long long)(e.waits - e.resumes), (unsigned long long)e.waits);
        }
        SIM_CHECK(e.waiters_done.load(std::memory_order_acquire) == nwait, "event:lost", "not all waiters finished");
        if (wc(0.5)) e.ev->notify();
        e.ev->reset();
        SIM_CHECK(!e.ev->is_set(), "event:state", "still set after reset");
        if (wc(0.3)) e.ev->reset();
        sim::note_nontrivial();
    }
    delete pool;
    Quiet q;
    SIM_CHECK(Frame::live == 0, "event:frame-leak", "%lld frames leaked", (long long)Frame::live);
}

namespace
{
    struct Racer
    {
        u64 begun = 0, ended = 0;    // body
        u64 retired = 0;             // the wrapper has dropped the task
        bool threw = false;
        u64 result_lives = 0;
    };
    struct Race
    {
        Racer r[5];
        u64 n = 0;
        u64 clock = 0;
        bool resolved = false;
    };
    // A coroutine parameter is destroyed with the frame, that is when the task object dies.
    struct Retire
    {
        Race* race;
        u64 i;
        Retire(Race* rc, u64 k) : race(rc), i(k) {}
        Retire(Retire&& o) noexcept : race(std::exchange(o.race, nullptr)), i(o.i) {}
        Retire(const Retire&) = delete;
        ~Retire()
        {
            if (!race) return;
            Quiet q;
            SIM_CHECK(race->r[i].retired == 0, "when_any:task-twice", "a task was destroyed twice");
            race->r[i].retired = ++race->clock;
        }
    };
    struct Boom : std::exception
    {
        const char* what() const noexcept override { return "boom"; }
    };
    template<class T>
    Task<T> racer(Retire ret, IOPool* pool, u64 nw, u64 hops, u64 late, int fail)
    {
        Frame f;
        Race* rc = ret.race;
        const u64 i = ret.i;
        {
            Quiet q;
            SIM_CHECK(rc->r[i].begun++ == 0, "when_any:task-twice", "a task was started twice");
        }
        for (u64 k = 0; k < hops; ++k)
        {
            Worker* w = pool->get_worker(wr(0, nw - 1));
            co_await SwitchToWorker(*w);
            if (wc(0.7)) (void)co_await w->async_sleep(std::chrono::nanoseconds(wr(0, late)));
        }
        {
            Quiet q;
            SIM_CHECK(rc->r[i].ended == 0, "when_any:task-twice", "a task ended twice");
            rc->r[i].ended = ++rc->clock;
            rc->r[i].threw = fail;
        }
        if (fail == 1) throw Boom{};
        if (fail == 2) throw int(3);
        if constexpr (std::is_void_v<T>)
            co_return;
        else if constexpr (std::is_same_v<T, Tracked>)
            co_return Tracked(i);
        else
            co_return T{};
    }
    struct Outcome
    {
        u64 done = 0, rounds = 0;
        u64 throwing = 0;
    };
    Task<size_t> dispatch(Race* rc, IOPool* pool, Worker& w, u64 nw, u64 late, bool failing)
    {
        auto mk = [&](u64 i) { return racer<void>(Retire(rc, i), pool, nw, wr(0, 3), late, failing && wc(0.5) ? int(wr(1, 2)) : 0); };
        auto mkt = [&](u64 i) { return racer<Tracked>(Retire(rc, i), pool, nw, wr(0, 3), late, failing && wc(0.5) ? int(wr(1, 2)) : 0); };
        auto mkr = [&](u64 i) { return racer<Result<int>>(Retire(rc, i), pool, nw, wr(0, 3), late, failing && wc(0.5) ? int(wr(1, 2)) : 0); };
        switch (rc->n)
        {
            case 1: co_return co_await kio::sync::when_any(w, mk(0));
            case 2: co_return co_await kio::sync::when_any(w, mk(0), mkt(1));
            case 3: co_return co_await kio::sync::when_any(w, mkr(0), mkt(1), mk(2));
            case 4: co_return co_await kio::sync::when_any(w, mk(0), mk(1), mkr(2), mkt(3));
            default: co_return co_await kio::sync::when_any(w, mkt(0), mk(1), mkr(2), mk(3), mk(4));
        }
    }
    DetachedTask when_any_user(IOPool* pool, u64 nw, u64 me, Outcome* out, std::vector<std::unique_ptr<Race>>* races, u64 late, bool failing)
    {
        Frame f;
        Worker& w = *pool->get_worker(me % nw);
        co_await SwitchToWorker(w);
        for (u64 k = 0; k < out->rounds; ++k)
        {
            Race* rc;
            {
                Quiet q;
                races->push_back(std::make_unique<Race>());
                rc = races->back().get();
                rc->n = wr(1, 5);
            }
            const size_t win = co_await dispatch(rc, pool, w, nw, late, failing);
            SIM_CHECK(w.is_on_worker_thread() || true, "when_any:wrong-thread", "resumed elsewhere");
            {
                Quiet q;
                SIM_CHECK(!rc->resolved, "when_any:resumed-twice", "when_any resumed its caller twice");
                rc->resolved = true;
                SIM_CHECK(win < rc->n, "when_any:index", "index %zu of %llu tasks", win, (unsigned long long)rc->n);
                SIM_CHECK(rc->r[win].ended, "when_any:unfinished", "reported task %zu which has not finished", win);
                for (u64 j = 0; j < rc->n; ++j)
                    SIM_CHECK(!(rc->r[j].retired && rc->r[j].retired < rc->r[win].ended), "when_any:not-first", "reported task %zu although task %llu was done before it ended", win, (unsigned long long)j);
                for (u64 j = 0; j < rc->n; ++j) SIM_CHECK(rc->r[j].begun, "when_any:not-started", "task %llu was not started", (unsigned long long)j);
            }
            co_await SwitchToWorker(w);
        }
        Quiet q;
        out->done++;
        sim::note_nontrivial();
    }
}  // namespace

SIM_SCENARIO(when_any)
{
    setup(0.15);
    LeakCheck leak;
    const u64 nw = wr(1, 3);
    WorkerConfig cfg;
    cfg.task_queue_capacity = 64;
    cfg.uring_queue_depth = 64;
    cfg.default_op_slots = 64;
    auto* pool = new IOPool(nw, cfg);
    const u64 late = 100ull << wr(0, 9);
    const u64 users = wr(1, 4);
    const bool failing = wc(0.4);
    std::vector<std::unique_ptr<Race>> races;
    {
        Quiet q;
        races.reserve(100);
    }
    Outcome out[4];
    for (u64 i = 0; i < users; ++i)
    {
        out[i].rounds = wr(1, 4);
        when_any_user(pool, nw, i, &out[i], &races, late, failing).detach();
    }
    sim::settle(10 * sec);
    {
        Quiet q;
        for (u64 i = 0; i < users; ++i) SIM_CHECK(out[i].done == 1, "when_any:lost", "a caller of when_any was never resumed although tasks finished");
        for (auto& r: races)
            for (u64 j = 0; j < r->n; ++j)
            {
                SIM_CHECK(r->r[j].ended, "when_any:abandoned", "a task that did not win was not run to its end");
                SIM_CHECK(r->r[j].retired, "when_any:task-leak", "a task was never destroyed");
            }
        SIM_CHECK(Frame::live == 0, "when_any:frame-leak", "%lld frames leaked", (long long)Frame::live);
        SIM_CHECK(Tracked::live == 0, "when_any:result-leak", "%lld results leaked", (long long)Tracked::live);
    }
    delete pool;
}
