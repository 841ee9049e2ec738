// C27: the cache of read descriptors by itself.
#include "bitcask_common.h"
#include "bitcask/include/fd_cache.h"

using namespace bk;

namespace
{
    using bitcask::FDCache;
    using bitcask::FileHandle;
    using Handle = std::shared_ptr<const FileHandle>;

    struct Node
    {
        u64 id = 0;
        std::string path;
        u64 gen = 0;                  // what the file says; 0: there is no file
        std::set<u64> stale;          // what a cached descriptor may still say
    };
    struct Held
    {
        Handle h;
        u64 id = 0, gen = 0;
    };
    struct Rig
    {
        Worker* w = nullptr;
        FDCache* c = nullptr;
        u64 max = 0;
        bool alone = false;           // one coroutine only: the model below is exact
        bool errors = false;
        std::vector<Node> nodes;
        u64 gens = 0, calls = 0, failed = 0, inflight = 0, held = 0, done = 0;
        int fds = 0;                  // open without the cache
        std::list<u64> lru;           // front: last used
        u64 hits = 0, misses = 0, evictions = 0;
        int left = 0;
    };
    Rig* g = nullptr;

    void look(const char* when)
    {
        Quiet q;
        SIM_CHECK(g->c->size() <= g->max, "cache:bound", "%s the cache of %llu holds %zu files", when, (unsigned long long)g->max, g->c->size());
        const u64 open = u64(sim::open_fds() - g->fds);
        SIM_CHECK(open <= g->c->size() + g->held + g->inflight, "cache:open", "%s %llu descriptors are open with %zu files cached, %llu handles held and %llu calls under way", when,
                  (unsigned long long)open, g->c->size(), (unsigned long long)g->held, (unsigned long long)g->inflight);
        const auto& s = g->c->get_stats();
        SIM_CHECK(s.hits + s.misses == g->calls, "cache:stats", "%s %llu hits and %llu misses after %llu calls", when, (unsigned long long)s.hits, (unsigned long long)s.misses,
                  (unsigned long long)g->calls);
        const double rate = g->calls ? double(s.hits) / double(g->calls) : 0.0;
        SIM_CHECK(s.hit_rate() > rate - 1e-9 && s.hit_rate() < rate + 1e-9, "cache:stats", "a hit rate of %f with %llu hits in %llu calls", s.hit_rate(), (unsigned long long)s.hits, (unsigned long long)g->calls);
        if (!g->alone || g->inflight != 0) return;
        SIM_CHECK(s.hits == g->hits && s.misses == g->misses && s.evictions == g->evictions && g->c->size() == g->lru.size(), "cache:lru",
                  "%s %llu hits, %llu misses, %llu evictions, %zu files cached; a cache of least recently used files has %llu, %llu, %llu and %zu", when, (unsigned long long)s.hits,
                  (unsigned long long)s.misses, (unsigned long long)s.evictions, g->c->size(), (unsigned long long)g->hits, (unsigned long long)g->misses, (unsigned long long)g->evictions, g->lru.size());
    }
    u64 content(int fd)
    {
        u64 v = 0;
        sim::faults_enabled(false);
        const auto n = ::pread(fd, &v, sizeof v, 0);
        sim::faults_enabled(true);
        return n == i64(sizeof v) ? v : 0;
    }
    void write_gen(Node& n)
    {
        u64 v;
        {
            Quiet q;
            v = ++g->gens;
            sim::faults_enabled(false);
        }
        ::unlink(n.path.c_str());
        {
            const int fd = ::open(n.path.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
            SIM_CHECK(fd >= 0 && ::write(fd, &v, sizeof v) == i64(sizeof v), "scenario", "cannot write %s", n.path.c_str());
            ::close(fd);
        }
        Quiet q;
        sim::faults_enabled(true);
        n.gen = v;
        n.stale.insert(v);
    }
    void forget(u64 id)
    {
        Quiet q;
        g->lru.remove(id);
    }

    Task<void> do_get(Node* n, std::vector<Held>* keep)
    {
        bool cached = false;
        u64 gen0;
        {
            Quiet q;
            ++g->calls;
            ++g->inflight;
            gen0 = n->gen;
            cached = std::find(g->lru.begin(), g->lru.end(), n->id) != g->lru.end();
        }
        auto r = co_await g->c->get_or_open(n->id, n->path);
        {
            Quiet q;
            --g->inflight;
            if (g->alone)
            {
                ++(cached ? g->hits : g->misses);
                g->lru.remove(n->id);
                if (r.has_value() && g->max > 0)
                {
                    while (!cached && g->lru.size() >= g->max)
                    {
                        g->lru.pop_back();
                        ++g->evictions;
                    }
                    g->lru.push_front(n->id);
                }
                else if (cached)
                    SIM_CHECK(false, "cache:error", "a cached file could not be had");
            }
            if (!r.has_value())
            {
                ++g->failed;
                SIM_CHECK(g->errors || (r.error().value == ENOENT && gen0 == 0), "cache:error", "file %s of generation %llu could not be opened (%d), which nothing caused", n->path.c_str(), (unsigned long long)gen0, r.error().value);
            }
            else
            {
                ++g->held;
                ++g->done;
            }
        }
        if (!r.has_value())
        {
            look("after a failure");
            co_return;
        }
        Held h{std::move(r.value()), n->id, 0};
        {
            Quiet q;
            SIM_CHECK(h.h != nullptr && h.h->is_valid(), "cache:handle", "a handle without a descriptor was handed out");
        }
        const u64 v = content(h.h->get());
        {
            Quiet q;
            SIM_CHECK(v != 0 && n->stale.count(v), "cache:wrong-file", "the descriptor of file %llu reads %llu, which it never held since the cache forgot it", (unsigned long long)n->id, (unsigned long long)v);
            h.gen = v;
        }
        look("after a call");
        keep->push_back(std::move(h));
        co_return;
    }
    void drop(std::vector<Held>* keep, size_t i)
    {
        const u64 v = content((*keep)[i].h->get());
        {
            Quiet q;
            SIM_CHECK(v == (*keep)[i].gen, "cache:wrong-file", "a handle which read %llu now reads %llu", (unsigned long long)(*keep)[i].gen, (unsigned long long)v);
            --g->held;
        }
        keep->erase(keep->begin() + i64(i));
    }
    Task<void> client(u64 ops)
    {
        Frame f;
        std::vector<Held> keep;
        for (u64 i = 0; i < ops; ++i)
        {
            Node* n = &g->nodes[wr(0, g->nodes.size() - 1)];
            switch (wr(0, 11))
            {
                case 0:
                    g->c->remove(n->id);
                    forget(n->id);
                    // calls already under way may still bring in what they opened before
                    if (g->inflight == 0)
                    {
                        Quiet q;
                        n->stale = {n->gen};
                    }
                    break;
                case 1:
                    if (!wc(0.3)) break;
                    g->c->clear();
                    {
                        Quiet q;
                        g->lru.clear();
                    }
                    break;
                case 2:
                    if (g->inflight != 0) break;
                    // a file is replaced, as no store does, so that one can tell what was opened when
                    g->c->remove(n->id);
                    forget(n->id);
                    write_gen(*n);
                    {
                        Quiet q;
                        n->stale = {n->gen};
                    }
                    break;
                case 3:
                    if (!keep.empty()) drop(&keep, wr(0, keep.size() - 1));
                    break;
                default:
                    co_await do_get(n, &keep);
                    if (wc(0.6) && !keep.empty()) drop(&keep, keep.size() - 1);
                    break;
            }
            look("between calls");
        }
        while (!keep.empty()) drop(&keep, 0);
    }
    DetachedTask run_client(u64 ops, std::atomic<int>* left)
    {
        co_await SwitchToWorker(*g->w);
        co_await client(ops);
        left->fetch_sub(1);
    }
}  // namespace

SIM_SCENARIO(bk_cache)
{
    setup(0.1);
    LeakCheck leak;
    sim::set_bad_close_check(true);
    Rig rig;
    g = &rig;
    const int before = sim::open_fds();
    ::mkdir("c", 0755);
    const u64 nn = wr(1, 8);
    for (u64 i = 0; i < nn; ++i)
    {
        Quiet q;
        Node n;
        n.id = wc(0.2) ? (1ull << 40) + i : i + wr(0, 1) * 1000;
        for (auto& o: rig.nodes)
            if (o.id == n.id) n.id += 5000;
        n.path = "c/f" + std::to_string(n.id);
        rig.nodes.push_back(n);
    }
    for (auto& n: rig.nodes)
        if (!wc(0.1)) write_gen(n);
    rig.max = wc(0.05) ? 0 : wr(1, 5);
    const u64 nc = wr(1, 4);
    rig.alone = nc == 1;
    rig.errors = sim::chance(Conf, 0.3);
    {
        WorkerConfig cfg{};
        cfg.uring_queue_depth = 1u << wr(3, 6);
        cfg.default_op_slots = wr(8, 64);
        IOPool pool(1, cfg);
        rig.w = pool.get_worker(0);
        rig.fds = sim::open_fds();
        if (rig.errors)
        {
            sim::set_fault(sim::F_Eio, 0.05);
            sim::set_fault(sim::F_Emfile, 0.1);
        }
        {
            FDCache cache(*rig.w, rig.max);
            rig.c = &cache;
            std::atomic<int> left{int(nc)};
            for (u64 i = 0; i < nc; ++i) run_client(wr(3, 25), &left).detach();
            while (left.load() != 0) sim::sleep_ns(100'000);
            sim::sleep_ns(ms);
            look("at the end");
            SIM_CHECK(Frame::live == 0 && rig.held == 0, "cache:frames", "%lld client coroutines left", (long long)Frame::live);
        }
        SIM_CHECK(sim::open_fds() == rig.fds, "fd:leak", "%d descriptors left open by the cache", sim::open_fds() - rig.fds);
        pool.stop();
    }
    SIM_CHECK(sim::open_fds() == before, "fd:leak", "%d descriptors left open", sim::open_fds() - before);
    if (rig.done > 2) sim::note_nontrivial();
}
