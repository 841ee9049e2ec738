// C02: SyncWait.
#include "kio_common.h"
#include "kio/sync/sync_wait.h"

using namespace scen;

namespace
{
    // Resumes the awaiting coroutine on another thread.
    struct Hop
    {
        std::vector<std::thread*>* pool;   // per caller; joined at the end (oracle state)
        bool late;
        bool await_ready() const noexcept { return false; }
        void await_suspend(std::coroutine_handle<> h) const
        {
            const bool l = late;
            auto* p = pool;   // the awaiter may be gone once the thread runs
            auto* t = new std::thread([h, l] {
                if (l) sim::sleep_ns(wr(1, 2000));
                h.resume();
            });
            Quiet q;
            p->push_back(t);
        }
        void await_resume() const noexcept {}
    };
    struct MyError
    {
        u64 v;
    };
    struct Ctx
    {
        std::vector<std::thread*> th;
        u64 plain[8] = {};
        bool finished = false;
    };

    Task<void> hop_some(Ctx* c, u64 n)
    {
        Frame f;
        for (u64 i = 0; i < n; ++i)
        {
            c->plain[i % 8]++;
            co_await Hop{&c->th, wc(0.3)};
        }
    }
    template<class T>
    Task<T> leaf(Ctx* c, u64 v, u64 hops, int how)
    {
        Frame f;
        Tracked local(v);
        for (u64 i = 0; i < hops; ++i)
        {
            c->plain[i % 8] = v + i;
            if (wc(0.3))
                co_await hop_some(c, 1);
            else
                co_await Hop{&c->th, wc(0.3)};
        }
        SIM_CHECK(local.value() == v, "syncwait:frame", "a coroutine frame changed");
        c->plain[7] = v;
        {
            Quiet q;
            c->finished = true;
        }
        if (how == 1) throw MyError{v};
        if (how == 2) throw std::runtime_error(std::to_string(v));
        if constexpr (std::is_same_v<T, void>)
            co_return;
        else if constexpr (std::is_same_v<T, std::unique_ptr<u64>>)
            co_return std::make_unique<u64>(v);
        else if constexpr (std::is_same_v<T, std::string>)
            co_return std::string(50, 'a') + std::to_string(v);
        else if constexpr (std::is_same_v<T, Tracked>)
            co_return Tracked(v);
        else
            co_return T(v);
    }
    template<class T>
    Task<T> nest(Ctx* c, u64 v, u64 hops, int how, u64 depth)
    {
        Frame f;
        if (depth == 0) co_return co_await leaf<T>(c, v, hops, how);
        if (wc(0.3)) co_await Hop{&c->th, false};
        if constexpr (std::is_void_v<T>)
        {
            co_await nest<T>(c, v, hops, how, depth - 1);
            c->plain[6] = v + depth;
            co_return;
        }
        else
        {
            T r = co_await nest<T>(c, v, hops, how, depth - 1);
            c->plain[6] = v + depth;
            co_return r;
        }
    }
    // What SyncWait keeps on the stack lies well below everything its caller calls afterwards: the simulator notices
    // every later use of it.
    template<class T>
    [[gnu::noinline]] T wait_here(Task<T> t)
    {
        return kio::SyncWait(std::move(t));
    }
    template<class T>
    [[gnu::noinline]] T wait_deep(Task<T> t)
    {
        char pad[6000];
        asm volatile("" : : "r"(pad) : "memory");
        struct After
        {
            char* p;
            ~After() { asm volatile("" : : "r"(p) : "memory"); }
        } after{pad};
        return wait_here<T>(std::move(t));
    }
    template<class T>
    void one_wait()
    {
        Ctx c;
        const u64 v = wr(1, 1000);
        const u64 hops = wr(0, 3), depth = wr(0, 3);
        const int how = wc(0.3) ? int(wr(1, 2)) : 0;
        bool got = false;
        try
        {
            if constexpr (std::is_void_v<T>)
            {
                wait_deep<T>(nest<T>(&c, v, hops, how, depth));
                got = true;
            }
            else
            {
                T r = wait_deep<T>(nest<T>(&c, v, hops, how, depth));
                got = true;
                bool same;
                if constexpr (std::is_same_v<T, std::unique_ptr<u64>>)
                    same = r && *r == v;
                else if constexpr (std::is_same_v<T, std::string>)
                    same = r == std::string(50, 'a') + std::to_string(v);
                else if constexpr (std::is_same_v<T, Tracked>)
                    same = r.value() == v;
                else
                    same = r == T(v);
                SIM_CHECK(same, "syncwait:value", "SyncWait returned another value than the task did");
            }
        }
        catch (const MyError& e)
        {
            SIM_CHECK(how == 1 && e.v == v, "syncwait:exception", "unexpected exception");
        }
        catch (const std::runtime_error& e)
        {
            SIM_CHECK(how == 2 && e.what() == std::to_string(v), "syncwait:exception", "unexpected exception");
        }
        SIM_CHECK(got == (how == 0), "syncwait:exception", "the task's exception was %s", got ? "swallowed" : "invented");
        {
            Quiet q;
            SIM_CHECK(c.finished, "syncwait:early", "SyncWait returned before the task finished");
        }
        // plain memory of the task must be visible without further synchronisation
        SIM_CHECK(c.plain[7] == v, "syncwait:visibility", "writes of the task are missing");
        if (hops) sim::note_nontrivial();
        for (size_t i = 0;; ++i)
        {
            std::thread* t;
            {
                Quiet q;
                if (i >= c.th.size()) break;
                t = c.th[i];
            }
            t->join();
            delete t;
        }
    }
}  // namespace

SIM_SCENARIO(syncwait)
{
    sim::swarm_policy();
    setup_logger(0);
    swarm_weak_memory(0.3);
    const u64 callers = wr(1, 3);
    const u64 blocks = sim::live_blocks();
    auto body = [] {
        const u64 n = wr(1, 3);
        for (u64 i = 0; i < n; ++i)
        {
            switch (wr(0, 4))
            {
                case 0: one_wait<u64>(); break;
                case 1: one_wait<void>(); break;
                case 2: one_wait<std::unique_ptr<u64>>(); break;
                case 3: one_wait<Tracked>(); break;
                default: one_wait<std::string>(); break;
            }
        }
    };
    {
        std::vector<std::thread> th;
        for (u64 i = 1; i < callers; ++i) th.emplace_back(body);
        body();
        for (auto& t: th) t.join();
    }
    const u64 left = sim::live_blocks();
    Quiet q;
    // (frames of the library's own coroutines)
    SIM_CHECK(left == blocks, "syncwait:leak", "%lld blocks of memory were never freed", (long long)(left - blocks));
    SIM_CHECK(Frame::live == 0, "syncwait:frame-leak", "%lld coroutine frames were never destroyed", (long long)Frame::live);
    SIM_CHECK(Tracked::live == 0, "syncwait:frame-leak", "%lld objects of coroutine frames were never destroyed", (long long)Tracked::live);
}
