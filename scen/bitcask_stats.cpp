// C29: what a bitcask partition says about itself.
#include "bitcask_common.h"
#include "bitcask/include/partition.h"

using namespace bk;

namespace
{
    using bitcask::DataEntry;
    using bitcask::Partition;
    using bitcask::PartitionStats;

    struct Snap
    {
        PartitionStats st;
        u64 active = 0;
        u64 hits = 0, misses = 0, evictions = 0;
        struct F
        {
            u64 size = 0, used = 0, live_bytes = 0, live_entries = 0;
        };
        std::map<u64, F> disk;        // what the files say
        u64 keys = 0;
    };
    struct Rig
    {
        BitcaskConfig cfg;
        WorkerConfig io;
        std::unique_ptr<IOPool> pool;
        std::unique_ptr<Partition> part;
        std::vector<std::string> keys;
        bool errors = false;
        // what was called and how it ended
        u64 puts = 0, gets = 0, misses = 0, found = 0, dels = 0, compacts = 0, compacts_failed = 0, sealed = 0;
        u64 next_val = 1;
        bool went_wrong = false;      // an operation failed: the files may hold more than the statistics say
        Worker& w() const { return *pool->get_worker(0); }

        void failed(const char* what, const kio::Error& e)
        {
            Quiet q;
            SIM_CHECK(errors, "bitcask:error", "%s failed (category %d, value %d), which nothing caused", what, int(e.category), e.value);
            went_wrong = true;
        }
        std::vector<char> value()
        {
            Quiet q;
            return std::vector<char>(wc(0.1) ? 0 : wr(1, wc(0.2) ? 400 : 30), char(next_val++));
        }
        void put(const std::string& k)
        {
            auto r = SyncWait(part->put(std::string(k), value()));
            if (!r) return failed("a put", r.error());
            Quiet q;
            ++puts;
        }
        bool get(const std::string& k)
        {
            {
                Quiet q;
                ++gets;
            }
            auto r = SyncWait(part->get(k));
            if (!r)
            {
                failed("a get", r.error());
                return false;
            }
            Quiet q;
            ++(r->has_value() ? found : misses);
            return r->has_value();
        }
        void del(const std::string& k)
        {
            {
                Quiet q;
                ++dels;
            }
            auto r = SyncWait(part->del(k));
            if (!r) failed("a del", r.error());
        }
        bool compact()
        {
            auto r = SyncWait(part->compact());
            if (!r) failed("a compaction", r.error());
            Quiet q;
            ++(r ? compacts : compacts_failed);
            return r.has_value();
        }
        void client(u64 n)
        {
            for (u64 i = 0; i < n; ++i)
            {
                const std::string& k = keys[wr(0, keys.size() - 1)];
                if (wc(0.05)) sim::sleep_ns(wr(1, 3) * ms);
                if (wc(0.55))
                    put(k);
                else if (wc(0.35))
                    get(k);
                else if (wc(0.6))
                    del(k);
                else if (wc(0.15))
                    compact();
                else if (wc(0.3))
                {
                    if (auto r = SyncWait(part->sync()); !r) failed("a sync", r.error());
                }
                else
                    glance();
            }
        }
        Task<void> take(Snap* s)
        {
            co_await SwitchToWorker(w());
            s->st = part->get_stats();
            s->active = part->active_file_id();
            s->hits = part->get_cache_stats().hits;
            s->misses = part->get_cache_stats().misses;
            s->evictions = part->get_cache_stats().evictions;
            Quiet q;
            walk(*s);
        }
        // What holds at every moment.
        static void sane(const Snap& s)
        {
            u64 total = 0, live = 0, reclaim = 0;
            for (auto& [id, f]: s.st.data_files)
            {
                SIM_CHECK(f.live_bytes <= f.total_bytes, "bitcask:stats", "file %llu holds %llu live bytes of %llu in all", (unsigned long long)id, (unsigned long long)f.live_bytes,
                          (unsigned long long)f.total_bytes);
                SIM_CHECK((f.live_entries == 0) == (f.live_bytes == 0), "bitcask:stats", "file %llu holds %llu live entries of %llu bytes", (unsigned long long)id,
                          (unsigned long long)f.live_entries, (unsigned long long)f.live_bytes);
                SIM_CHECK(f.reclaimable_bytes() == f.total_bytes - f.live_bytes, "bitcask:stats", "wrong reclaimable bytes");
                const double x = f.total_bytes ? 1.0 - double(f.live_bytes) / double(f.total_bytes) : 0;
                SIM_CHECK(std::abs(f.fragmentation() - x) < 1e-9, "bitcask:stats", "fragmentation %g of a file with %llu live bytes of %llu", f.fragmentation(),
                          (unsigned long long)f.live_bytes, (unsigned long long)f.total_bytes);
                total += f.total_bytes;
                live += f.live_bytes;
                reclaim += f.total_bytes - f.live_bytes;
            }
            SIM_CHECK(s.st.total_reclaimable_bytes() == reclaim, "bitcask:stats", "%llu reclaimable bytes in all, the files' sum is %llu", (unsigned long long)s.st.total_reclaimable_bytes(),
                      (unsigned long long)reclaim);
            SIM_CHECK(std::abs(s.st.overall_fragmentation() - (total ? 1.0 - double(live) / double(total) : 0)) < 1e-9, "bitcask:stats", "wrong overall fragmentation");
            SIM_CHECK(s.evictions <= s.misses, "bitcask:stats", "%llu files left the cache, %llu came", (unsigned long long)s.evictions, (unsigned long long)s.misses);
        }
        void glance()
        {
            Snap s;
            SyncWait(take(&s));
            Quiet q;
            sane(s);
        }
        // What the files say, read the way recovery does.
        static void walk(Snap& s)
        {
            struct At
            {
                u64 file, size;
            };
            std::map<std::string, At> where;
            std::vector<DiskFile> files;
            for (auto& f: disk_files(1))
                if (f.data) files.push_back(f);
            std::sort(files.begin(), files.end(), [](auto& a, auto& b) { return a.id < b.id; });
            for (auto& f: files)
            {
                auto& d = s.disk[f.id];
                d.size = f.size;
                const std::string text = slurp(f.path);
                size_t at = 0;
                while (text.size() - at >= 12)
                {
                    u64 n;
                    memcpy(&n, text.data() + at + 4, 8);
                    if (n == 0 || n > text.size() - at - 12) break;
                    auto e = DataEntry::deserialize(std::span<const char>(text.data() + at, size_t(12 + n)));
                    if (!e) break;
                    if (e->first.is_tombstone())
                        where.erase(e->first.key);
                    else
                        where[e->first.key] = {f.id, 12 + n};
                    at += size_t(12 + n);
                }
                d.used = at;
            }
            for (auto& [k, a]: where)
            {
                auto& d = s.disk[a.file];
                d.live_bytes += a.size;
                d.live_entries++;
            }
            s.keys = where.size();
        }
        // No operation is going on (a compaction in the background may be).
        Snap check(bool counters = true)
        {
            Snap s;
            for (int i = 0;; ++i)
            {
                s = Snap{};
                SyncWait(take(&s));
                if (!s.st.compaction_running) break;
                SIM_CHECK(i < 2000, "no-progress", "a compaction does not end");
                sim::sleep_ns(ms);
            }
            u64 present = 0;
            {
                NoFaults n;
                for (auto& k: keys) present += get(k);
            }
            Quiet q;
            sane(s);
            u64 entries = 0;
            for (auto& [id, f]: s.st.data_files) entries += f.live_entries;
            SIM_CHECK(entries == present, "bitcask:stats", "%llu keys can be read, the statistics count %llu live entries", (unsigned long long)present, (unsigned long long)entries);
            if (counters)
            {
                const auto same = [](const char* what, u64 is, u64 want) {
                    SIM_CHECK(is == want, "bitcask:stats", "the statistics count %llu %s, there were %llu", (unsigned long long)is, what, (unsigned long long)want);
                };
                same("puts", s.st.puts_total, puts);
                same("gets", s.st.gets_total, gets - keys.size());
                same("misses", s.st.gets_miss_total, misses - (keys.size() - present));
                same("deletions", s.st.deletes_total, dels);
                if (!cfg.auto_compact) same("failed compactions", s.st.compactions_failed, compacts_failed);
                if (!cfg.auto_compact)
                    SIM_CHECK(s.st.compactions_total <= compacts, "bitcask:stats", "the statistics count %llu compactions, there were at most %llu", (unsigned long long)s.st.compactions_total,
                              (unsigned long long)compacts);
            }
            SIM_CHECK(s.hits + s.misses >= found - present, "bitcask:stats", "the cache counts %llu look-ups, %llu values were read", (unsigned long long)(s.hits + s.misses),
                      (unsigned long long)(found - present));
            if (went_wrong) return s;
            for (auto& [id, f]: s.st.data_files)
            {
                const auto it = s.disk.find(id);
                SIM_CHECK(it != s.disk.end(), "bitcask:stats", "the statistics know file %llu, which does not exist", (unsigned long long)id);
                SIM_CHECK(it->second.used == f.total_bytes, "bitcask:stats", "file %llu holds %llu bytes, the statistics say %llu", (unsigned long long)id, (unsigned long long)it->second.used,
                          (unsigned long long)f.total_bytes);
                SIM_CHECK(it->second.live_bytes == f.live_bytes && it->second.live_entries == f.live_entries, "bitcask:stats",
                          "file %llu holds %llu live entries of %llu bytes, the statistics say %llu and %llu", (unsigned long long)id, (unsigned long long)it->second.live_entries,
                          (unsigned long long)it->second.live_bytes, (unsigned long long)f.live_entries, (unsigned long long)f.live_bytes);
            }
            for (auto& [id, d]: s.disk)
                SIM_CHECK(s.st.data_files.count(id) || (id == s.active && d.used == 0), "bitcask:stats", "the statistics do not know file %llu", (unsigned long long)id);
            SIM_CHECK(s.disk.count(s.active) && s.disk.rbegin()->first == s.active, "bitcask:stats", "the active file %llu is not the newest one", (unsigned long long)s.active);
            return s;
        }
        // A compaction that nothing disturbs does what the statistics make expect, and tells what it did.
        void compact_alone()
        {
            if (cfg.auto_compact) return;
            const Snap a = check();
            const bool ok = compact();
            const Snap b = check();
            if (!ok || went_wrong) return;
            Quiet q;
            u64 before = 0, after = 0, gone = 0;
            bool due = false;
            for (auto& [id, f]: a.st.data_files)
            {
                before += f.total_bytes;
                gone += !b.st.data_files.count(id);
                if (id == a.active) continue;
                const bool frag = f.unsynced || f.fragmentation() >= cfg.fragmentation_threshold;
                due |= frag;
                SIM_CHECK(frag == !b.st.data_files.count(id), "bitcask:stats", "a compaction %s file %llu with %llu live bytes of %llu", frag ? "kept" : "removed", (unsigned long long)id,
                          (unsigned long long)f.live_bytes, (unsigned long long)f.total_bytes);
            }
            for (auto& [id, f]: b.st.data_files) after += f.total_bytes;
            SIM_CHECK(b.st.compactions_total == a.st.compactions_total + due, "bitcask:stats", "the statistics counted %llu compactions instead of %d",
                      (unsigned long long)(b.st.compactions_total - a.st.compactions_total), int(due));
            SIM_CHECK(b.st.files_compacted_total == a.st.files_compacted_total + gone, "bitcask:stats", "the statistics counted %llu compacted files instead of %llu",
                      (unsigned long long)(b.st.files_compacted_total - a.st.files_compacted_total), (unsigned long long)gone);
            SIM_CHECK(b.st.bytes_reclaimed_total - a.st.bytes_reclaimed_total == before - after, "bitcask:stats", "the statistics counted %llu reclaimed bytes instead of %llu",
                      (unsigned long long)(b.st.bytes_reclaimed_total - a.st.bytes_reclaimed_total), (unsigned long long)(before - after));
            SIM_CHECK(b.st.file_rotations_total == a.st.file_rotations_total + due, "bitcask:stats", "the statistics counted %llu rotations instead of %d",
                      (unsigned long long)(b.st.file_rotations_total - a.st.file_rotations_total), int(due));
            if (due) sim::probe("a compaction's statistics were compared");
        }
        Task<Result<std::unique_ptr<Partition>>> opening()
        {
            co_await SwitchToWorker(w());
            co_return co_await Partition::open(cfg, w(), 0);
        }
        bool open()
        {
            auto r = SyncWait(opening());
            if (!r)
            {
                failed("opening", r.error());
                return false;
            }
            part = std::move(*r);
            Quiet q;
            puts = gets = misses = found = dels = compacts = compacts_failed = 0;
            return true;
        }
    };
}  // namespace

SIM_SCENARIO(bk_stats)
{
    setup(0.1);
    Rig g;
    Cfg c;
    some_config(c);
    g.cfg = c.db;
    g.io = c.io;
    g.cfg.auto_compact = wc(0.35);
    g.errors = wc(0.25);
    {
        Quiet q;
        NoFaults n;
        std::filesystem::create_directories("db/partition_0");
        sim::disk_sync_all();
        const u64 n_keys = wr(1, 6);
        for (u64 i = 0; i < n_keys; ++i) g.keys.push_back(wc(0.1) ? std::string(wr(20, 200), char('a' + i)) : "key" + std::to_string(i));
    }
    if (sim::chance(Conf, 0.4)) sim::set_fault(sim::F_ShortRead, 0.1);
    if (sim::chance(Conf, 0.4)) sim::set_fault(sim::F_ShortWrite, 0.1);
    g.pool = std::make_unique<IOPool>(1, g.io);
    const u64 lives = wr(1, 2);
    for (u64 l = 0; l < lives; ++l)
    {
        error_faults(false);
        if (!g.open()) break;
        Snap first = g.check();
        {
            Quiet q;
            SIM_CHECK(first.st.puts_total + first.st.gets_total + (g.cfg.auto_compact ? 0 : first.st.compactions_total + first.st.file_rotations_total) == 0, "bitcask:stats", "a partition that was just opened counts operations");
        }
        if (g.errors)
        {
            error_faults(true);
            g.went_wrong = true;   // not every failure is reported, those of the background are not
        }
        const u64 rounds = wr(1, 3);
        for (u64 r = 0; r < rounds; ++r)
        {
            const u64 n = wr(2, 20);
            std::vector<std::thread> th;
            const int clients = int(wr(1, 3));
            th.reserve(size_t(clients));
            for (int i = 1; i < clients; ++i) th.emplace_back([&g, n] { g.client(n); });
            g.client(n);
            for (auto& t: th) t.join();
            g.check();
            if (wc(0.6)) g.compact_alone();
        }
        error_faults(false);
        {
            Quiet q;
            if (g.puts > 2) sim::note_nontrivial();
        }
        auto r = SyncWait(g.part->async_close());
        if (!r) g.failed("closing", r.error());
        g.part.reset();
    }
    g.pool.reset();
}
