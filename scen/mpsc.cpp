// C01: the bounded multi-producer single-consumer queue.
#include "common.h"
#include "kio/sync/mpsc_queue.h"

namespace
{
    struct Oracle
    {
        u64 cap = 0;
        u64 succeeded = 0, inprogress = 0, pops_done = 0, pops_started = 0;
        u64 started = 0;             // pushes ever started
        bool weak = false;
        std::vector<u64> next_seq;   // per producer: last value popped
        std::vector<std::set<u64>> pushed;   // accepted and not yet popped, per producer
    };
    Oracle* O;

    constexpr u64 kProd = 1u << 20;

    template<class T, class Q>
    void run_queue(u64 cap, u64 nprod, u64 total, bool leave)
    {
        {
            Quiet q;
            O = new Oracle;
            O->cap = cap;
            O->next_seq.assign(nprod, 0);
            O->pushed.resize(nprod);
        }
        O->weak = swarm_weak_memory(0.4);
        auto* q = new Q(cap);
        SIM_CHECK(q->capacity() == cap, "capacity", "capacity() is %zu", q->capacity());
        std::atomic<u64> remaining{nprod};
        std::vector<u64> shared_before(nprod * 2, 0);   // plain memory written before each push
        std::vector<std::thread> th;
        std::atomic<bool> stop{false};
        const bool stop_early = leave;
        for (u64 p = 0; p < nprod; ++p)
        {
            const u64 n = total / nprod + 1;
            th.emplace_back([&, p, n] {
                auto* cells = new u64[n];
                u64 fails = 0;
                for (u64 i = 0; i < n && !stop.load(std::memory_order_relaxed);)
                {
                    const u64 v = (p + 1) * kProd + i;
                    cells[i] = v;   // plain write: must be visible to the consumer
                    T item(v);
                    item.a = v;
                    u64 others, pops0;
                    {
                        Quiet qq;
                        O->inprogress++;
                        O->started++;
                        O->pushed[p].insert(i);   // in case it is accepted
                        pops0 = O->pops_done;
                        others = O->succeeded + O->inprogress - 1;
                    }
                    const bool ok = q->try_push(std::move(item));
                    {
                        Quiet qq;
                        O->inprogress--;
                        if (ok)
                        {
                            O->succeeded++;
                            SIM_CHECK(O->succeeded - O->pops_done <= O->cap + (O->pops_started - O->pops_done), "queue:overfull", "%llu items accepted, %llu popped, capacity %llu", (unsigned long long)O->succeeded,
                                      (unsigned long long)O->pops_done, (unsigned long long)O->cap);
                            ++i;
                            fails = 0;
                        }
                        else
                        {
                            O->pushed[p].erase(i);
                            sim::probe("push-full");
                            const u64 now_max = std::max(others, O->succeeded + O->inprogress);
                            // upper bound on what the queue held at any instant of this call
                            SIM_CHECK(O->weak || now_max + nprod >= O->cap + pops0, "queue:push-failed-not-full", "push failed with at most %llu items held", (unsigned long long)(now_max - pops0));
                            if (nprod == 1)
                                SIM_CHECK(O->weak || O->succeeded - pops0 >= O->cap, "queue:push-failed-not-full", "push failed while %llu of %llu items were held", (unsigned long long)(O->succeeded - pops0), (unsigned long long)O->cap);
                            SIM_CHECK(item.heap, "queue:failed-push-consumed", "a failed push moved the item away");
                        }
                    }
                    if (wc(0.2))
                    {
                        const u64 n = q->size_approx();
                        Quiet qq;
                        SIM_CHECK(O->weak || n <= O->succeeded + O->inprogress, "queue:size", "size_approx() is %llu after at most %llu pushes", (unsigned long long)n,
                                  (unsigned long long)(O->succeeded + O->inprogress));
                    }
                    if (!ok)
                    {
                        if (++fails > 400) break;   // consumer may have gone
                        std::this_thread::yield();
                    }
                }
                remaining.fetch_sub(1, std::memory_order_release);
                // cells stay: the consumer checks its accesses for data races through the item's memory
                delete[] cells;
            });
        }
        // consumer: this thread
        u64 got = 0;
        auto take = [&](T& it) {
            u64 succ0, inprog0;
            {
                Quiet qq;
                O->pops_started++;
                succ0 = O->succeeded;
                inprog0 = O->inprogress;
            }
            const bool ok = q->try_pop(it);
            if (ok)
            {
                const u64 v = it.value();
                Quiet qq;
                O->pops_done++;
                const u64 p = v / kProd - 1, i = v % kProd;
                SIM_CHECK(p < nprod, "queue:invented", "popped a value nobody pushed: %llx", (unsigned long long)v);
                SIM_CHECK(O->pushed[p].count(i), "queue:duplicate", "item %llu of producer %llu popped twice or never accepted", (unsigned long long)i, (unsigned long long)p);
                O->pushed[p].erase(i);
                SIM_CHECK(i == O->next_seq[p], "queue:order", "producer %llu: popped item %llu, expected %llu", (unsigned long long)p, (unsigned long long)i, (unsigned long long)O->next_seq[p]);
                O->next_seq[p] = i + 1;
                ++got;
            }
            else
            {
                Quiet qq;
                O->pops_started--;
                sim::probe("pop-empty");
                // nothing pending at the start of the call, or a push was in progress at some time during the call
                if (!O->weak && inprog0 == 0 && O->inprogress == 0)
                    SIM_CHECK(succ0 == O->pops_done, "queue:pop-failed-not-empty", "pop failed with %llu items pending and no push in progress", (unsigned long long)(succ0 - O->pops_done));
            }
            return ok;
        };
        const u64 stop_at = stop_early ? wr(0, total / 2 + 1) : ~0ull;
        {
            T item(7);
            u64 idle = 0;
            for (;;)
            {
                if (got >= stop_at)
                {
                    stop.store(true, std::memory_order_relaxed);
                    break;
                }
                const bool done = remaining.load(std::memory_order_acquire) == 0;
                if (!take(item))
                {
                    if (done) break;
                    if (++idle % 4 == 0) std::this_thread::yield();
                    if (idle > 20000) break;
                }
                (void)q->size_approx();
            }
        }
        for (auto& t: th) t.join();
        {
            Quiet qq;
            const u64 held = O->succeeded - O->pops_done;
            SIM_CHECK(q->size_approx() == held, "queue:size", "size_approx() is %zu with %llu items at rest", q->size_approx(), (unsigned long long)held);
            SIM_CHECK(Tracked::live == i64(held), "item:leak", "%lld items alive, %llu held", (long long)Tracked::live, (unsigned long long)held);
            if (got) sim::note_nontrivial();
        }
        if (!leave)
        {
            T item(7);
            while (take(item)) {}
            Quiet qq;
            SIM_CHECK(O->succeeded == O->pops_done, "queue:lost", "%llu accepted, %llu popped", (unsigned long long)O->succeeded, (unsigned long long)O->pops_done);
            for (auto& s: O->pushed) SIM_CHECK(s.empty(), "queue:lost", "an accepted item was never popped");
        }
        else if (O->succeeded > O->pops_done)
            sim::probe("destroyed-with-items");
        delete q;
        {
            Quiet qq;
            SIM_CHECK(Tracked::live == 0, "item:leak", "%lld items were never destroyed", (long long)Tracked::live);
        }
    }
}  // namespace

SIM_SCENARIO(mpsc)
{
    sim::swarm_policy();
    for (int i = 0; i < 4; ++i)
    {
        // the helper for callers whose wanted capacity is no power of two
        const u64 k = wr(0, 40), n = k == 0 ? wr(0, 2) : (1ull << k) + wr(0, 2) * wr(0, (1ull << k) - 1) / 2 - wr(0, 1), p = kio::next_power_of_2(n);
        SIM_CHECK(p && (p & (p - 1)) == 0 && p >= n && (p == 1 || p / 2 < n), "capacity:helper", "next_power_of_2(%llu) is %llu", (unsigned long long)n, (unsigned long long)p);
    }
    const u64 cap = 1ull << wr(0, 4);
    const u64 nprod = wr(1, 4);
    const u64 total = wr(1, 60);
    const bool leave = wc(0.3);
    if (wc(0.5))
        run_queue<Tracked, kio::MPSCQueue<Tracked>>(cap, nprod, total, leave);
    else
        run_queue<TrackedDef, kio::MPSCQueue<TrackedDef>>(cap, nprod, total, leave);
}
