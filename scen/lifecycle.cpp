// C08: start, readiness and stop of workers and pools.
#include "net_common.h"

#include <sys/utsname.h>

using namespace scen;

namespace
{
    struct CbError
    {
        int x;
    };
    struct Life
    {
        u64 callbacks[8] = {};
        u64 callbacks_wrong = 0;
        u64 resumes = 0;
        bool down[8] = {};        // the loop of this worker must have ended
        u64 late = 0;
        bool throwing = false;
        std::thread::id runner[8];
    };
    void ran(Life* l, u64 w)
    {
        Quiet q;
        l->resumes++;
        SIM_CHECK(!l->down[w], "life:late", "a coroutine ran on worker %llu after its stop had returned", (unsigned long long)w);
    }
    // keeps a worker busy until it stops
    DetachedTask busy(Life* l, Worker* w, u64 id, u64 kind, int fd)
    {
        co_await SwitchToWorker(*w);
        ran(l, id);
        char b[64];
        for (u64 i = 0; i < 400; ++i)
        {
            switch (kind)
            {
                case 0: (void)co_await w->async_sleep(std::chrono::microseconds(wr(0, 500))); break;
                case 1: (void)co_await w->async_read(fd, std::span<char>(b, sizeof b)); break;
                case 2: (void)co_await w->async_write_at(fd, std::span<const char>(b, sizeof b), 0); break;
                default: (void)co_await w->async_sleep(std::chrono::hours(1)); break;
            }
            ran(l, id);
            SIM_CHECK(w->is_on_worker_thread(), "life:wrong-thread", "resumed on another thread than its worker's");
            if (kind != 0 && wc(0.2)) (void)co_await w->async_sleep(std::chrono::microseconds(1 + wr(0, 500)));
        }
    }
    DetachedTask hopper(Life* l, IOPool* pool, u64 start)
    {
        u64 w = start;
        for (u64 i = 0; i < 200; ++i)
        {
            co_await SwitchToWorker(*pool->get_worker(w));
            ran(l, w);
            w = (w + 1) % pool->num_workers();
            if (wc(0.3))
            {
                const u64 cur = (w + pool->num_workers() - 1) % pool->num_workers();
                (void)co_await pool->get_worker(cur)->async_sleep(std::chrono::microseconds(wr(0, 200)));
                ran(l, cur);
            }
        }
    }
    DetachedTask poke(Life* l, Worker* w, u64 id)
    {
        co_await SwitchToWorker(*w);
        ran(l, id);
    }
    std::function<void(Worker&)> callback(Life* l, bool throws)
    {
        return [l, throws](Worker& w) {
            {
                Quiet q;
                l->callbacks[w.get_id()]++;
                SIM_CHECK(l->callbacks[w.get_id()] == 1, "life:callback", "the start-up callback of worker %zu ran %llu times", w.get_id(), (unsigned long long)l->callbacks[w.get_id()]);
            }
            SIM_CHECK(w.is_on_worker_thread(), "life:callback", "the start-up callback ran on another thread than its worker's");
            if (throws && wc(0.6)) throw std::runtime_error("callback");
        };
    }
    void faults(double p_init)
    {
        if (sim::chance(Conf, p_init)) sim::set_fault(sim::F_InitFail, 0.4);
        if (sim::chance(Conf, 0.15)) sim::set_fault(sim::F_Emfile, 0.3);
        if (sim::chance(Conf, 0.2)) sim::set_fault(sim::F_PartialSubmit, 0.2);
        if (sim::chance(Conf, 0.2)) sim::set_fault(sim::F_SubmitEintr, 0.1);
        if (sim::chance(Conf, 0.15)) sim::set_fault(sim::F_Eintr, 0.1);
        if (sim::chance(Conf, 0.1)) sim::set_fault(sim::F_SubmitFatal, 0.02);
        if (sim::chance(Conf, 0.05)) sim::knobs().release = "5.15.0";
        if (sim::chance(Conf, 0.03)) sim::knobs().release = "strange";
    }
    // pipes and files the busy coroutines use, outside the worker
    struct Fds
    {
        std::vector<int> r, w;
        int make_pipe()
        {
            int p[2];
            sim::faults_enabled(false);
            if (::pipe(p) != 0) sim::sim_error("pipe");
            sim::faults_enabled(true);
            r.push_back(p[0]);
            w.push_back(p[1]);
            return p[0];
        }
        int make_file()
        {
            sim::faults_enabled(false);
            const int fd = ::open("data", O_RDWR | O_CREAT, 0644);
            sim::faults_enabled(true);
            r.push_back(fd);
            return fd;
        }
        void close()
        {
            sim::faults_enabled(false);
            for (int fd: r) ::close(fd);
            for (int fd: w) ::close(fd);
        }
    };
    WorkerConfig config()
    {
        WorkerConfig cfg;
        cfg.task_queue_capacity = 256;
        cfg.uring_queue_depth = pow2(0, 6);
        cfg.default_op_slots = wc(0.3) ? wr(1, 4) : 64;
        return cfg;
    }
}  // namespace

SIM_SCENARIO(worker_life)
{
    setup(0.25);
    Life life;
    const int before = sim::open_fds();
    Fds fds;
    const bool throws = wc(0.2);
    if (wc(0.1))
    {
        // what cannot work is refused at once, and leaves nothing behind
        WorkerConfig c = config();
        switch (wr(0, 4))
        {
            case 0: c.uring_queue_depth = 0; break;
            case 1: c.uring_submit_batch_size = 0; break;
            case 2: c.tcp_backlog = 0; break;
            case 3: c.op_slots_growth_factor = 1.0f; break;
            default: c.op_slots_growth_factor = 0.5f; break;
        }
        bool refused = false;
        try
        {
            if (wc(0.5))
                Worker w(0, c);
            else
                IOPool p(1, c);
        }
        catch (const std::invalid_argument&)
        {
            refused = true;
        }
        catch (const std::system_error&)
        {
            refused = true;   // no eventfd
        }
        SIM_CHECK(refused, "life:config", "a worker accepted a configuration that cannot work");
        SIM_CHECK(sim::open_fds() == before, "life:fd-leak", "refusing a configuration left %d descriptors open", sim::open_fds() - before);
    }
    const WorkerConfig cfg = config();
    faults(0.3);
    std::unique_ptr<Worker> w;
    const bool has_cb = throws || wc(0.6);
    try
    {
        w = std::make_unique<Worker>(wr(0, 3), cfg, has_cb ? callback(&life, throws) : std::function<void(Worker&)>{});
    }
    catch (const std::system_error& e)
    {
        SIM_CHECK(e.code().value() == EMFILE || e.code().value() == ENFILE, "life:cause", "construction failed with %d", e.code().value());
        SIM_CHECK(sim::open_fds() == before, "life:fd-leak", "a worker that could not be constructed left descriptors open");
        sim::probe("worker not constructed");
        return;
    }
    const u64 id = w->get_id();
    const u64 how = wr(0, 9);
    if (how == 0)
    {
        // never run
        if (wc(0.5)) SIM_CHECK(w->request_stop(), "life:stop", "the first stop reported failure");
        w.reset();
        SIM_CHECK(sim::open_fds() == before, "life:fd-leak", "a worker that never ran left %d descriptors open", sim::open_fds() - before);
        sim::probe("worker never ran");
        sim::note_nontrivial();
        return;
    }
    if (how == 1)
    {
        (void)w->request_stop();   // before the loop starts
        sim::probe("stopped before it ran");
    }
    std::atomic<int> ready{0}, down{0};
    std::vector<std::thread> th;
    Worker* p = w.get();
    std::thread loop([p] { p->loop_forever(); });
    const u64 waiters = wr(0, 2);
    for (u64 i = 0; i < waiters; ++i)
        th.emplace_back([&, p] {
            if (wc(0.4)) sim::sleep_ns(wr(1, 400000));
            p->wait_ready();
            ready.fetch_add(1);
            p->wait_shutdown();
            {
                Quiet q;
                life.down[id] = true;
            }
            down.fetch_add(1);
        });
    const bool wait_first = wc(0.6);
    if (wait_first)
    {
        p->wait_ready();
        // whoever waited for readiness may use the worker right away: it has its ring and its eventfd, unless it failed
        if (!p->has_failed()) SIM_CHECK(sim::open_fds() >= before + 2, "life:not-ready", "waiting for the worker to be ready returned before it had set up its ring");
        SIM_CHECK(!p->is_on_worker_thread(), "life:identity", "a thread that is not the worker's is taken for it");
        if (sim::fault_rate(sim::F_InitFail) == 0 && sim::fault_rate(sim::F_Emfile) == 0)
            for (u64 i = 0, k = wr(0, 4); i < k; ++i)
            {
                const u64 kind = wr(0, 3);
                busy(&life, p, id, kind, kind == 1 ? fds.make_pipe() : kind == 2 ? fds.make_file() : -1).detach();
            }
    }
    else
        for (u64 i = 0, k = wr(0, 3); i < k; ++i) poke(&life, p, id).detach();
    if (wc(0.7)) sim::sleep_ns(wr(1, wc(0.5) ? 50'000 : 5'000'000));
    const u64 stoppers = wr(1, 3);
    std::atomic<int> first{0};
    for (u64 i = 0; i < stoppers; ++i)
        th.emplace_back([&, p] {
            if (wc(0.5)) sim::sleep_ns(wr(1, 100000));
            (void)p->request_stop();
            p->wait_shutdown();
            Quiet q;
            life.down[id] = true;
        });
    const u64 t0 = sim::now();
    for (auto& t: th) t.join();
    loop.join();
    {
        Quiet q;
        SIM_CHECK(sim::now() - t0 < 3 * sec, "life:slow", "stopping took %llu ms", (unsigned long long)((sim::now() - t0) / ms));
        SIM_CHECK(!p->is_running(), "life:state", "a stopped worker says it is running");
    }
    SIM_CHECK(p->get_stop_token().stop_requested(), "life:state", "the stop token of a stopped worker is not set");
    // both waits return again, and stopping again is harmless
    p->wait_ready();
    p->wait_shutdown();
    (void)p->request_stop();
    const u64 r = life.resumes;
    sim::sleep_ns(wr(1, 3) * 1'000'000);
    SIM_CHECK(life.resumes == r, "life:late", "a coroutine ran on a stopped worker");
    fds.close();
    w.reset();
    SIM_CHECK(sim::open_fds() == before, "life:fd-leak", "%d descriptors leaked", sim::open_fds() - before);
    if (has_cb && sim::fault_rate(sim::F_InitFail) == 0 && sim::fault_rate(sim::F_Emfile) == 0 && sim::fault_rate(sim::F_SubmitEintr) == 0 && sim::fault_rate(sim::F_PartialSubmit) == 0 && sim::fault_rate(sim::F_SubmitFatal) == 0 && sim::knobs().release[0] == '6')
        SIM_CHECK(life.callbacks[id] == 1, "life:callback", "the start-up callback ran %llu times", (unsigned long long)life.callbacks[id]);
    sim::note_nontrivial();
}

SIM_SCENARIO(pool_life)
{
    setup(0.2);
    Life life;
    const int before = sim::open_fds();
    Fds fds;
    const u64 nw = wr(1, 4);
    const bool throws = wc(0.15);
    const WorkerConfig cfg = config();
    faults(0.2);
    if (sim::chance(Conf, 0.15)) sim::set_fault(sim::F_SyscallFail, 0.3);   // threads that cannot start, affinity that cannot be set
    const bool has_cb = throws || wc(0.5);
    IOPool* pool = nullptr;
    try
    {
        pool = new IOPool(nw, cfg, has_cb ? callback(&life, throws) : std::function<void(Worker&)>{});
    }
    catch (const std::system_error& e)
    {
        SIM_CHECK(sim::open_fds() == before, "life:fd-leak", "a pool that could not be constructed left %d descriptors open", sim::open_fds() - before);
        SIM_CHECK(e.code().value() == EMFILE || e.code().value() == EAGAIN, "life:cause", "construction failed with %d", e.code().value());
        sim::probe("pool not constructed");
        sim::note_nontrivial();
        return;
    }
    sim::set_fault(sim::F_SyscallFail, 0);
    const bool healthy = sim::fault_rate(sim::F_InitFail) == 0 && sim::fault_rate(sim::F_Emfile) == 0 && sim::fault_rate(sim::F_SubmitFatal) == 0;
    SIM_CHECK(pool->num_workers() == nw, "life:pool", "the pool has %zu of %llu workers", pool->num_workers(), (unsigned long long)nw);
    SIM_CHECK(pool->get_worker(nw) == nullptr, "life:pool", "a worker that does not exist was returned");
    for (u64 i = 0; i < nw; ++i) SIM_CHECK(pool->get_worker(i)->get_id() == i, "life:pool", "worker %llu has the id %zu", (unsigned long long)i, pool->get_worker(i)->get_id());
    for (u64 i = 0; i < 3; ++i)
    {
        const std::string k = std::to_string(i * 77 + nw);
        const size_t a = pool->get_worker_id_by_key(k);
        SIM_CHECK(a < nw && a == pool->get_worker_id_by_key(std::string(k)), "life:pool", "a key is not always served by the same worker");
    }
    if (healthy)
    {
        for (u64 i = 0, k = wr(0, 6); i < k; ++i)
        {
            const u64 kind = wr(0, 3), w = wr(0, nw - 1);
            busy(&life, pool->get_worker(w), w, kind, kind == 1 ? fds.make_pipe() : kind == 2 ? fds.make_file() : -1).detach();
        }
        for (u64 i = 0, k = wr(0, 3); i < k; ++i) hopper(&life, pool, wr(0, nw - 1)).detach();
    }
    else
        for (u64 i = 0, k = wr(0, 3); i < k; ++i) poke(&life, pool->get_worker(i % nw), i % nw).detach();
    // threads that go on posting while the pool stops
    std::vector<std::thread> posters, stoppers;
    for (u64 i = 0, k = wr(0, 2); i < k; ++i)
        posters.emplace_back([&, nw] {
            for (u64 j = 0, m = wr(1, 20); j < m; ++j)
            {
                const u64 w = wr(0, nw - 1);
                poke(&life, pool->get_worker(w), w).detach();
                if (wc(0.3)) sim::sleep_ns(wr(1, 50000));
            }
        });
    if (wc(0.7)) sim::sleep_ns(wr(1, wc(0.5) ? 50'000 : 5'000'000));
    const u64 t0 = sim::now();
    std::atomic<bool> stopping{false};
    const u64 ns = wr(0, 3);
    for (u64 i = 0; i < ns; ++i)
        stoppers.emplace_back([&, nw] {
            if (wc(0.5)) sim::sleep_ns(wr(1, 100000));
            const bool mine = !stopping.exchange(true);
            pool->stop();
            Quiet q;
            if (mine && ns == 1)
                for (u64 w = 0; w < nw; ++w) life.down[w] = true;
        });
    for (auto& t: stoppers) t.join();
    for (auto& t: posters) t.join();
    if (ns && wc(0.5)) pool->stop();
    delete pool;
    {
        Quiet q;
        for (u64 w = 0; w < nw; ++w) life.down[w] = true;
        SIM_CHECK(sim::now() - t0 < 3 * sec, "life:slow", "stopping took %llu ms", (unsigned long long)((sim::now() - t0) / ms));
    }
    const u64 r = life.resumes;
    sim::sleep_ns(wr(1, 3) * 1'000'000);
    SIM_CHECK(life.resumes == r, "life:late", "a coroutine ran after its pool was gone");
    fds.close();
    SIM_CHECK(sim::open_fds() == before, "life:fd-leak", "%d descriptors leaked", sim::open_fds() - before);
    if (has_cb && healthy && sim::fault_rate(sim::F_SubmitEintr) == 0 && sim::fault_rate(sim::F_PartialSubmit) == 0 && sim::knobs().release[0] == '6')
        for (u64 w = 0; w < nw; ++w) SIM_CHECK(life.callbacks[w] == 1, "life:callback", "the start-up callback of worker %llu ran %llu times", (unsigned long long)w, (unsigned long long)life.callbacks[w]);
    sim::note_nontrivial();
}
