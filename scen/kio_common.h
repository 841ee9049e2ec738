// Shared by scenarios that run workers.
#pragma once
#include "common.h"

#include <chrono>
#include <condition_variable>
#include <mutex>
#include <coroutine>
#include <sstream>

#include "kio/core/async_logger.h"
#include "kio/core/coro.h"
#include "kio/core/worker.h"
#include "kio/core/worker_pool.h"

namespace scen
{
    using namespace std::chrono_literals;
    using kio::DetachedTask;
    using kio::Result;
    using kio::Task;
    using kio::io::IOPool;
    using kio::io::SwitchToWorker;
    using kio::io::Worker;
    using kio::io::WorkerConfig;

    // The library logs to a stream nobody reads, mostly at a level that emits nothing.
    inline void setup_logger(double p_on = 0.08)
    {
        static std::ostringstream* os;
        os = new std::ostringstream;
        static const kio::LogLevel lv[] = {kio::LogLevel::Trace, kio::LogLevel::Debug, kio::LogLevel::Info};
        if (sim::chance(Conf, p_on))
            kio::alog::configure(1024, lv[sim::decide(Conf, 3)], *os);
        else
            kio::alog::configure(64, kio::LogLevel::Disabled, *os);
    }
    inline void setup(double p_weak = 0.2)
    {
        sim::swarm_policy();
        sim::swarm_kernel();
        setup_logger();
        swarm_weak_memory(p_weak);
    }

    // Declared first in a scenario that gives everything back: memory nobody frees any more, beyond what a logger and thread-local
    // caches keep, is the library's.
    struct LeakCheck
    {
        u64 at = sim::live_blocks();
        ~LeakCheck()
        {
            const i64 left = i64(sim::live_blocks() - at);
            Quiet q;
            SIM_CHECK(left <= 8, "leak", "%lld blocks of memory were never freed", (long long)left);
        }
    };

    // Lives in a coroutine frame: counts frames, and who runs them.
    struct Frame
    {
        static inline i64 live = 0, total = 0;
        Frame()
        {
            Quiet q;
            ++live;
            ++total;
        }
        ~Frame()
        {
            Quiet q;
            --live;
            SIM_CHECK(live >= 0, "frame:destroyed-twice", "a coroutine frame was destroyed twice");
        }
        Frame(const Frame&) = delete;
    };

    inline u64 pow2(u64 lo, u64 hi) { return 1ull << wr(lo, hi); }

    // A spot of plain memory handed between threads: the race detector checks that the hand-over synchronises.
    struct Cell
    {
        u64 v = 0;
    };

    // Lets a worker's loop turn: resumes the coroutine through a post from another thread a little later.
    class Ticker
    {
        std::mutex m_;
        std::condition_variable cv_;
        std::vector<std::pair<Worker*, std::coroutine_handle<>>> q_;
        bool stop_ = false;
        std::thread t_;

    public:
        Ticker()
        {
            t_ = std::thread([this] {
                std::unique_lock l(m_);
                for (;;)
                {
                    cv_.wait(l, [this] { return stop_ || !q_.empty(); });
                    if (q_.empty()) return;
                    auto q = std::exchange(q_, {});
                    l.unlock();
                    sim::sleep_ns(20000);
                    for (auto& [w, h]: q) kio::io::internal::WorkerAccess::post(*w, h);
                    l.lock();
                }
            });
        }
        ~Ticker()
        {
            {
                std::lock_guard l(m_);
                stop_ = true;
            }
            cv_.notify_one();
            t_.join();
        }
        auto turn(Worker& w)
        {
            struct A
            {
                Ticker* t;
                Worker* w;
                bool await_ready() const noexcept { return false; }
                void await_suspend(std::coroutine_handle<> h) const
                {
                    Ticker* tk = t;
                    {
                        std::lock_guard l(tk->m_);
                        tk->q_.emplace_back(w, h);
                    }
                    tk->cv_.notify_one();
                }
                void await_resume() const noexcept {}
            };
            return A{this, &w};
        }
    };

    constexpr u64 ms = 1000000ull;
    constexpr u64 sec = 1000000000ull;
}  // namespace scen
