// C28: tasks.
#include "kio_common.h"
#include "kio/core/errors.h"
#include "kio/sync/sync_wait.h"

using namespace scen;

namespace
{
    struct MyError
    {
        u64 v;
    };
    struct Rec
    {
        bool awaited = false;
        int awaiter = -1;     // thread that awaits it
        u64 started = 0, finished = 0, destroyed = 0;
        int by = -1;          // thread that finished it
        u64 plain = 0;        // program memory, written by the task
    };
    struct Ctx
    {
        std::vector<std::thread*> th;     // oracle state
        std::vector<std::unique_ptr<Rec>> recs;
        u64 budget = 40;
        Rec* make()
        {
            Quiet q;
            recs.push_back(std::make_unique<Rec>());
            return recs.back().get();
        }
    };
    // A parameter: lives as long as the frame.
    struct Param
    {
        Rec* r;
        Tracked t;
        Param(Rec* rec, u64 v) : r(rec), t(v) {}
        Param(Param&& o) noexcept : r(std::exchange(o.r, nullptr)), t(std::move(o.t)) {}
        ~Param()
        {
            if (!r) return;
            Quiet q;
            r->destroyed++;
            SIM_CHECK(r->destroyed == 1, "task:destroyed-twice", "a task's frame was destroyed twice");
        }
    };
    struct Hop
    {
        Ctx* c;
        bool late;
        bool await_ready() const noexcept { return false; }
        void await_suspend(std::coroutine_handle<> h) const
        {
            const bool l = late;
            auto* p = c;
            auto* t = new std::thread([h, l] {
                if (l) sim::sleep_ns(wr(1, 2000));
                h.resume();
            });
            Quiet q;
            p->th.push_back(t);
        }
        void await_resume() const noexcept {}
    };
    struct Never
    {
        bool await_ready() const noexcept { return false; }
        void await_suspend(std::coroutine_handle<>) const noexcept {}
        void await_resume() const noexcept { sim::violation("task:resumed", "a coroutine was resumed that nobody resumed"); }
    };
    u64 g_boom[3];        // detached tasks that ended with an exception (oracle state)
    std::ostringstream* g_log;
    constexpr u64 kReturn = 0, kThrow = 1, kThrowStd = 2;

    void on_start(Rec* r)
    {
        Quiet q;
        SIM_CHECK(r->awaited, "task:eager", "a task ran before it was awaited");
        SIM_CHECK(r->started == 0, "task:started-twice", "a task was started twice");
        SIM_CHECK(r->awaiter == sim::fid(), "task:start-thread", "a task did not start on the thread that awaited it");
        r->started++;
    }
    void on_finish(Rec* r)
    {
        Quiet q;
        r->finished++;
        r->by = sim::fid();
    }
    void before_await(Rec* r)
    {
        Quiet q;
        SIM_CHECK(r->started == 0 && r->destroyed == 0, "task:eager", "a task ran or died before it was awaited");
        r->awaited = true;
        r->awaiter = sim::fid();
    }
    void after_await(Rec* r, bool frame_alive)
    {
        Quiet q;
        SIM_CHECK(r->started == 1 && r->finished == 1, "task:early", "an await ended before its task did");
        SIM_CHECK(r->by == sim::fid() || r->by == -2, "task:resume-thread", "the awaiting coroutine was not continued on the thread that finished the task");
        SIM_CHECK(r->destroyed == (frame_alive ? 0u : 1u), "task:lifetime", "the frame of a task that was awaited lives %s", frame_alive ? "too short" : "too long");
    }

    template<class T>
    bool same(T& r, u64 v)
    {
        if constexpr (std::is_same_v<T, std::unique_ptr<u64>>)
            return r && *r == v;
        else if constexpr (std::is_same_v<T, std::string>)
            return r == std::string(40, 'a') + std::to_string(v);
        else if constexpr (std::is_same_v<T, Tracked>)
            return r.value() == v;
        else if constexpr (std::is_same_v<T, Result<u64>>)
            return v % 3 ? (r && *r == v) : (!r && r.error() == kio::Error(kio::ErrorCategory::Device, int(v % 5000)));
        else
            return r == T(v);
    }
    template<class T>
    T value_of(u64 v)
    {
        if constexpr (std::is_same_v<T, std::unique_ptr<u64>>)
            return std::make_unique<u64>(v);
        else if constexpr (std::is_same_v<T, std::string>)
            return std::string(40, 'a') + std::to_string(v);
        else if constexpr (std::is_same_v<T, Result<u64>>)
        {
            if (v % 3) return v;
            return std::unexpected(kio::Error(kio::ErrorCategory::Device, int(v % 5000)));
        }
        else
            return T(v);
    }

    template<class T>
    Task<T> node(Ctx* c, Param p, u64 v, u64 depth, u64 how);
    Task<void> steps(Ctx* c, u64 n, u64 depth);

    // Errors pass through KIO_TRY as they are, and nothing behind it runs.
    Task<Result<u64>> tried(Ctx* c, Param p, u64 v, u64 depth)
    {
        Rec* self = p.r;
        on_start(self);
        Rec* r = c->make();
        before_await(r);
        if (v % 3 == 0)   // it ends inside of KIO_TRY
        {
            on_finish(self);
            Quiet q;
            self->by = -2;
        }
        const u64 x = KIO_TRY(co_await node<Result<u64>>(c, Param(r, v), v, depth, kReturn));
        SIM_CHECK(v % 3 && x == v, "task:try", "KIO_TRY went on with %llu where an error was to be passed on, or changed the value", (unsigned long long)x);
        on_finish(self);
        co_return x;
    }
    Task<u64> tiny(Param p, u64 v)
    {
        on_start(p.r);
        on_finish(p.r);
        co_return v + p.t.value();
    }
    Task<void> tiny_void(u64* n)
    {
        ++*n;
        co_return;
    }
    Task<u64> tall(u64 n)
    {
        if (n == 0) co_return 0;
        co_return co_await tall(n - 1) + 1;
    }

    // Awaits `t` and checks what comes out.
    template<class T>
    Task<void> judge(Task<T> t, Rec* r, u64 v, u64 how)
    {
        bool got = false;
        u64 times = 1;
        if constexpr (std::is_void_v<T> || std::is_same_v<T, u64>)
            if (wc(0.2)) times = 2;   // a finished task may be awaited again
        for (u64 i = 0; i < times; ++i)
        {
            got = false;
            if (i == 0) before_await(r);
            try
            {
                if constexpr (std::is_void_v<T>)
                {
                    co_await t;
                    got = true;
                }
                else
                {
                    T x = co_await t;
                    got = true;
                    SIM_CHECK(same(x, v), "task:value", "an await returned another value than the task did");
                }
            }
            catch (const MyError& e)
            {
                SIM_CHECK(how == kThrow && e.v == v, "task:exception", "unexpected exception");
            }
            catch (const std::runtime_error& e)
            {
                SIM_CHECK(how == kThrowStd && e.what() == std::to_string(v), "task:exception", "unexpected exception");
            }
            SIM_CHECK(got == (how == kReturn), "task:exception", "the task's exception was %s", got ? "swallowed" : "invented");
            after_await(r, true);
            SIM_CHECK(r->plain == v, "task:visibility", "writes of the task are missing");
        }
    }
    template<class T>
    Task<void> child(Ctx* c, u64 depth)
    {
        const u64 v = wr(1, 100000), how = wc(0.25) ? wr(kThrow, kThrowStd) : kReturn;
        Rec* r = c->make();
        switch (wr(0, 6))
        {
            case 0:   // moved around before it is awaited
            {
                Task<T> a = node<T>(c, Param(r, v), v, depth, how);
                Task<T> b = std::move(a);
                auto& same_b = b;
                if (wc(0.3)) b = std::move(same_b);
                std::vector<Task<T>> vec;
                vec.push_back(std::move(b));
                if (wc(0.5)) co_await Hop{c, false};
                co_await judge<T>(std::move(vec[0]), r, v, how);
                break;
            }
            case 1:   // assigned over one that never started
            {
                Rec* o = c->make();
                Task<T> a = node<T>(c, Param(o, v + 1), v + 1, depth, kReturn);
                if (wc(0.5)) a = node<T>(c, Param(r, v), v, depth, how);
                else
                {
                    Task<T> b = node<T>(c, Param(r, v), v, depth, how);
                    a = std::move(b);   // what a held is destroyed here, not with b
                    Quiet q;
                    SIM_CHECK(o->destroyed == 1 && r->destroyed == 0, "task:lifetime", "a task that was assigned to was not destroyed");
                }
                {
                    Quiet q;
                    SIM_CHECK(o->destroyed == 1 && o->started == 0, "task:lifetime", "a task that was assigned to was not destroyed, or ran");
                }
                co_await judge<T>(std::move(a), r, v, how);
                break;
            }
            case 2:   // assigned over one that is finished
            {
                Rec* o = c->make();
                Task<T> a = node<T>(c, Param(o, v + 1), v + 1, depth, kReturn);
                before_await(o);
                if constexpr (std::is_void_v<T>)
                    co_await a;
                else
                {
                    T x = co_await a;
                    SIM_CHECK(same(x, v + 1), "task:value", "an await returned another value than the task did");
                }
                after_await(o, true);
                a = node<T>(c, Param(r, v), v, depth, how);
                {
                    Quiet q;
                    SIM_CHECK(o->destroyed == 1, "task:lifetime", "a task that was assigned to was not destroyed");
                }
                co_await judge<T>(std::move(a), r, v, how);
                break;
            }
            case 3:   // never awaited
            {
                {
                    Task<T> a = node<T>(c, Param(r, v), v, depth, how);
                    std::optional<Task<T>> b;
                    if (wc(0.5)) b.emplace(std::move(a));
                    if (wc(0.3)) co_await Hop{c, wc(0.5)};
                }
                Quiet q;
                SIM_CHECK(r->destroyed == 1 && r->started == 0, "task:lifetime", "a task that was never awaited was not destroyed, or ran");
                break;
            }
            default:   // the usual way
            {
                bool got = false;
                try
                {
                    before_await(r);
                    if constexpr (std::is_void_v<T>)
                    {
                        co_await node<T>(c, Param(r, v), v, depth, how);
                        got = true;
                    }
                    else
                    {
                        T x = co_await node<T>(c, Param(r, v), v, depth, how);
                        got = true;
                        SIM_CHECK(same(x, v), "task:value", "an await returned another value than the task did");
                    }
                }
                catch (const MyError& e)
                {
                    SIM_CHECK(how == kThrow && e.v == v, "task:exception", "unexpected exception");
                }
                catch (const std::runtime_error& e)
                {
                    SIM_CHECK(how == kThrowStd && e.what() == std::to_string(v), "task:exception", "unexpected exception");
                }
                SIM_CHECK(got == (how == kReturn), "task:exception", "the task's exception was %s", got ? "swallowed" : "invented");
                after_await(r, false);
                SIM_CHECK(r->plain == v, "task:visibility", "writes of the task are missing");
            }
        }
    }
    Task<void> any_child(Ctx* c, u64 depth)
    {
        switch (wr(0, 6))
        {
            case 0: co_await child<void>(c, depth); break;
            case 1: co_await child<u64>(c, depth); break;
            case 2: co_await child<std::unique_ptr<u64>>(c, depth); break;
            case 3: co_await child<Tracked>(c, depth); break;
            case 4: co_await child<std::string>(c, depth); break;
            case 5: co_await child<Result<u64>>(c, depth); break;
            default:
            {
                Rec* r = c->make();
                const u64 v = wr(1, 100000);
                before_await(r);
                auto x = co_await tried(c, Param(r, v), v, depth);
                after_await(r, false);
                SIM_CHECK(same(x, v), "task:try", "KIO_TRY changed the result it passed on");
            }
        }
    }
    Task<void> steps(Ctx* c, u64 n, u64 depth)
    {
        Frame f;
        for (u64 i = 0; i < n; ++i)
        {
            switch (wr(0, 5))
            {
                case 0: co_await Hop{c, wc(0.3)}; break;
                case 1:   // many that end at once: the stack must not grow
                {
                    const u64 k = wc(0.04) ? 4000 : wr(1, 20);
                    u64 n2 = 0;
                    if (wc(0.5))
                        for (u64 j = 0; j < k; ++j) co_await tiny_void(&n2);
                    else
                    {
                        for (u64 j = 0; j < std::min<u64>(k, 30); ++j)
                        {
                            Rec* r = c->make();
                            before_await(r);
                            const u64 x = co_await tiny(Param(r, j), 5);
                            after_await(r, false);
                            SIM_CHECK(x == 5 + j, "task:value", "wrong value");
                            ++n2;
                        }
                    }
                    SIM_CHECK(n2 == (n2 <= 30 ? std::min<u64>(n2, k) : k), "task:count", "a task did not run exactly once per await");
                    break;
                }
                case 2:
                {
                    const u64 k = wc(0.04) ? 2500 : wr(0, 20);
                    const u64 x = co_await tall(k);
                    SIM_CHECK(x == k, "task:value", "wrong value");
                    break;
                }
                default:
                {
                    bool more;
                    {
                        Quiet q;
                        more = c->budget > 0;
                        if (more) c->budget--;
                    }
                    if (more && depth) co_await any_child(c, depth - 1);
                }
            }
        }
    }
    template<class T>
    Task<T> node(Ctx* c, Param p, u64 v, u64 depth, u64 how)
    {
        Rec* self = p.r;
        on_start(self);
        Frame f;
        Tracked local(v);
        if (wc(0.3)) co_await Hop{c, wc(0.3)};
        co_await steps(c, wr(0, 2), depth);
        SIM_CHECK(local.value() == v && p.t.value() == v, "task:frame", "a coroutine frame changed");
        self->plain = v;
        on_finish(self);
        if (how == kThrow) throw MyError{v};
        if (how == kThrowStd) throw std::runtime_error(std::to_string(v));
        if constexpr (!std::is_void_v<T>) co_return value_of<T>(v);
    }
    template<>
    Task<void> node<void>(Ctx* c, Param p, u64 v, u64 depth, u64 how)
    {
        Rec* self = p.r;
        on_start(self);
        Frame f;
        Tracked local(v);
        if (wc(0.3)) co_await Hop{c, wc(0.3)};
        co_await steps(c, wr(0, 2), depth);
        SIM_CHECK(local.value() == v && p.t.value() == v, "task:frame", "a coroutine frame changed");
        self->plain = v;
        on_finish(self);
        if (how == kThrow) throw MyError{v};
        if (how == kThrowStd) throw std::runtime_error(std::to_string(v));
    }
    // Stops somewhere deep and never goes on.
    Task<u64> stuck(Ctx* c, Param p, u64 depth)
    {
        Rec* self = p.r;
        on_start(self);
        Frame f;
        Tracked local(depth);
        Rec* idle = c->make();
        auto unused = node<Tracked>(c, Param(idle, 7), 7, 0, kReturn);
        if (wc(0.3)) co_await Hop{c, wc(0.3)};
        if (depth == 0)
            co_await Never{};
        else
        {
            Rec* r = c->make();
            before_await(r);
            if (wc(0.5))
                co_await stuck(c, Param(r, depth - 1), depth - 1);
            else
            {
                auto t = stuck(c, Param(r, depth - 1), depth - 1);
                co_await t;
            }
        }
        sim::violation("task:resumed", "a coroutine was continued whose task never finished");
    }

    struct Done
    {
        std::mutex m;
        std::condition_variable cv;
        bool done = false;
        void set()
        {
            std::lock_guard l(m);
            done = true;
            cv.notify_all();
        }
        void wait()
        {
            std::unique_lock l(m);
            cv.wait(l, [this] { return done; });
        }
    };
    // The end of a detached coroutine's frame.
    struct AtEnd
    {
        Done* d;
        explicit AtEnd(Done* x) : d(x) {}
        AtEnd(AtEnd&& o) noexcept : d(std::exchange(o.d, nullptr)) {}
        ~AtEnd()
        {
            if (d) d->set();
        }
    };
    DetachedTask detached(Ctx* c, AtEnd, int starter, bool* ran, u64 n, u64 depth, int boom)
    {
        {
            Quiet q;
            SIM_CHECK(sim::fid() == starter && !*ran, "detached:start", "a detached task did not start on its caller's thread");
            *ran = true;
        }
        Frame f;
        co_await steps(c, n, depth);
        {
            Quiet q;
            g_boom[boom]++;
        }
        if (boom == 1) throw std::runtime_error("boom");
        if (boom == 2) throw MyError{1};
    }
    DetachedTask owner(Ctx* c, u64 depth)
    {
        Frame f;
        Rec* r = c->make();
        before_await(r);
        co_await stuck(c, Param(r, depth), depth);
    }
    void join_all(Ctx& c)
    {
        for (size_t i = 0;; ++i)
        {
            std::thread* t;
            {
                Quiet q;
                if (i >= c.th.size()) break;
                t = c.th[i];
            }
            t->join();
            delete t;
        }
        Quiet q;
        c.th.clear();
    }
    void session()
    {
        Ctx c;
        switch (wr(0, 3))
        {
            case 0:
            {
                Rec* r = c.make();
                const u64 v = wr(1, 1000);
                before_await(r);
                const u64 x = kio::SyncWait(node<u64>(&c, Param(r, v), v, 3, kReturn));
                SIM_CHECK(x == v, "task:value", "wrong value");
                join_all(c);
                break;
            }
            case 1:
            {
                Done d;
                bool ran = false;
                detached(&c, AtEnd(&d), sim::fid(), &ran, wr(1, 4), 3, wc(0.3) ? int(wr(1, 2)) : 0).detach();
                {
                    Quiet q;
                    SIM_CHECK(ran, "detached:start", "a detached task did not start when it was called");
                }
                d.wait();
                join_all(c);
                break;
            }
            case 2:
            {
                {
                    DetachedTask t = owner(&c, wr(0, 8));
                    if (wc(0.5))
                    {
                        DetachedTask u = std::move(t);
                        join_all(c);
                    }
                    join_all(c);
                }
                break;
            }
            default:
            {
                // by hand: a task is started by nobody but its awaiter
                Rec* r = c.make();
                std::optional<Task<Tracked>> t(node<Tracked>(&c, Param(r, 9), 9, 1, kReturn));
                Task<Tracked> u = std::move(*t);
                t.reset();
                {
                    Quiet q;
                    SIM_CHECK(r->destroyed == 0 && r->started == 0, "task:lifetime", "a task died when the task it was moved from did, or ran");
                }
                if (wc(0.5)) break;
                before_await(r);
                Tracked x = kio::SyncWait(std::move(u));
                SIM_CHECK(x.value() == 9, "task:value", "wrong value");
                join_all(c);
            }
        }
        join_all(c);
        Quiet q;
        bool any = false;
        for (auto& r: c.recs)
        {
            SIM_CHECK(r->started <= 1 && r->finished <= 1, "task:started-twice", "a task ran twice");
            any |= r->finished;
        }
        if (any) sim::note_nontrivial();
    }
}  // namespace

SIM_SCENARIO(tasks)
{
    sim::swarm_policy();
    g_log = new std::ostringstream;
    g_boom[1] = g_boom[2] = 0;
    kio::alog::configure(1024, kio::LogLevel::Error, *g_log);
    swarm_weak_memory(0.3);
    const u64 callers = wr(1, 2);
    std::vector<std::thread> th;
    auto body = [] {
        const u64 n = wr(1, 3);
        for (u64 i = 0; i < n; ++i) session();
    };
    for (u64 i = 1; i < callers; ++i) th.emplace_back(body);
    body();
    for (auto& t: th) t.join();
    static std::ostringstream other;
    kio::alog::configure(64, kio::LogLevel::Disabled, other);   // the old logger writes what it holds
    Quiet q;
    const std::string text = g_log->str();
    auto count = [&](const char* what) {
        u64 n = 0;
        for (size_t at = text.find(what); at != std::string::npos; at = text.find(what, at + 1)) ++n;
        return n;
    };
    SIM_CHECK(count("boom") == g_boom[1] && u64(std::count(text.begin(), text.end(), '\n')) == g_boom[1] + g_boom[2], "detached:exception", "%llu and %llu detached tasks threw, the log says: %s",
              (unsigned long long)g_boom[1], (unsigned long long)g_boom[2], text.c_str());
    SIM_CHECK(Frame::live == 0, "task:frame-leak", "%lld coroutine frames were never destroyed", (long long)Frame::live);
    SIM_CHECK(Tracked::live == 0, "task:frame-leak", "%lld objects of coroutine frames were never destroyed", (long long)Tracked::live);
}
