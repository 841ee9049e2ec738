// C03: switching to a worker.
#include "kio_common.h"

using namespace scen;

namespace
{
    struct Job
    {
        std::atomic<int> done{0};
        u64 hops = 0;
        u64 resumed = 0;      // oracle
        u64 plain = 0;        // hand-over memory
        u64 issue_time = 0;
        bool bad = false;
    };
    struct State
    {
        IOPool* pool;
        u64 nworkers;
        u64 finished = 0;
        u64 inflight = 0;
    };

    DetachedTask runner(State* st, Job* j, u64 start, bool sleepy)
    {
        Frame f;
        u64 w = start;
        for (u64 i = 0; i < j->hops; ++i)
        {
            Worker& wk = *st->pool->get_worker(w);
            j->plain = i * 7 + w;   // written by whoever runs us now
            {
                Quiet q;
                j->issue_time = sim::now();
            }
            co_await SwitchToWorker(wk);
            SIM_CHECK(wk.is_on_worker_thread(), "switch:wrong-thread", "resumed on another thread than worker %llu's", (unsigned long long)w);
            SIM_CHECK(j->plain == i * 7 + w, "switch:visibility", "memory written before the switch is not visible after it");
            {
                Quiet q;
                j->resumed++;
                SIM_CHECK(j->resumed == i + 1, "switch:resumed-twice", "a coroutine was resumed %llu times for %llu switches", (unsigned long long)j->resumed, (unsigned long long)(i + 1));
            }
            if (sleepy && wc(0.2))
            {
                (void)co_await wk.async_sleep(std::chrono::microseconds(wr(0, 300)));
                SIM_CHECK(wk.is_on_worker_thread(), "switch:wrong-thread", "left the worker while sleeping");
            }
            // staying is a switch that does not suspend
            if (wc(0.7)) w = wr(0, st->nworkers - 1);
        }
        {
            Quiet q;
            st->finished++;
        }
        j->done.store(1, std::memory_order_release);
    }
    // Coroutines that always post themselves again, until an operation of the same worker has completed.
    struct Repost
    {
        Worker& w;
        bool await_ready() const noexcept { return false; }
        void await_suspend(std::coroutine_handle<> h) const { kio::io::internal::WorkerAccess::post(w, h); }
        void await_resume() const noexcept {}
    };
    struct Busy
    {
        bool quit = false;
        u64 left = 0;
    };
    DetachedTask busy(Worker& w, Busy* b)
    {
        Frame f;
        co_await SwitchToWorker(w);
        while (!b->quit)
        {
            co_await Repost{w};
            SIM_CHECK(w.is_on_worker_thread(), "switch:wrong-thread", "a posted coroutine runs on another thread");
        }
        Quiet q;
        b->left--;
    }
    DetachedTask quitter(Worker& w, Busy* b)
    {
        Frame f;
        co_await SwitchToWorker(w);
        (void)co_await w.async_sleep(std::chrono::microseconds(wr(1, 100)));
        b->quit = true;
    }
}  // namespace

SIM_SCENARIO(switch_worker)
{
    setup(0.25);
    LeakCheck leak;
    const u64 nw = wr(1, 3);
    const u64 nthreads = wr(1, 4);
    const u64 per = wr(1, 6);
    WorkerConfig cfg;
    // a coroutine is pending at most once: the queue never needs more than the number of coroutines
    u64 cap = 1;
    Busy bz;
    if (wc(0.15)) bz.left = wr(1, 3);
    while (cap < nthreads * per + (bz.left ? bz.left + 1 : 0)) cap *= 2;
    if (wc(0.3)) cap *= 2;
    // In the C++ memory model a producer may still see a cell as taken which was released long ago, if the queue comes
    // round quickly, and report a full queue. That is not what is checked here: with stale reads the queue is large.
    if (wc(0.4) && bz.left == 0) cap = std::max<u64>(cap, 64);
    else sim::weak_memory(false);
    cfg.task_queue_capacity = cap;
    cfg.uring_queue_depth = pow2(1, 6);
    cfg.default_op_slots = wr(1, 3) == 1 ? 2 : 64;
    cfg.uring_queue_depth = std::max<u64>(cfg.uring_queue_depth, 32);
    State st;
    auto* pool = new IOPool(nw, cfg);
    st.pool = pool;
    st.nworkers = nw;
    const u64 total = nthreads * per;
    std::vector<std::unique_ptr<Job>> jobs;
    for (u64 i = 0; i < total; ++i)
    {
        jobs.push_back(std::make_unique<Job>());
        jobs.back()->hops = wr(1, 6);
    }
    std::vector<std::thread> th;
    const bool sleepy = wc(0.3);
    for (u64 t = 0; t < nthreads; ++t)
        th.emplace_back([&, t] {
            for (u64 k = 0; k < per; ++k)
            {
                if (wc(0.3)) sim::sleep_ns(wr(1, 100000));
                runner(&st, jobs[t * per + k].get(), wr(0, nw - 1), sleepy).detach();
            }
        });
    if (const u64 k = bz.left)
    {
        Worker& wk = *pool->get_worker(wr(0, nw - 1));
        for (u64 i = 0; i < k; ++i) busy(wk, &bz).detach();
        quitter(wk, &bz).detach();
    }
    for (auto& t: th) t.join();
    // bounded: everything that can happen happens well within ten simulated seconds
    sim::settle(10 * sec);
    {
        Quiet q;
        SIM_CHECK(bz.left == 0, "switch:starved", "coroutines posting themselves keep the worker from its I/O");
        SIM_CHECK(st.finished == total, "switch:lost", "%llu of %llu coroutines never resumed although their workers are idle", (unsigned long long)(total - st.finished), (unsigned long long)total);
        sim::note_nontrivial();
    }
    for (auto& j: jobs) SIM_CHECK(j->done.load(std::memory_order_acquire) == 1, "switch:lost", "a coroutine did not finish");
    delete pool;
    Quiet q;
    SIM_CHECK(Frame::live == 0, "switch:frame-leak", "%lld frames leaked", (long long)Frame::live);
}
