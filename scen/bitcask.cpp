// C21-C23: the database under concurrency, crashes and restarts.
#include "bitcask_common.h"

using namespace bk;

SIM_SCENARIO(bk_linear)
{
    setup(0.08);
    sim::set_bad_close_check(true);
    sim::set_bad_fd_check(true);
    App* a;
    {
        Quiet q;
        a = new App;
    }
    some_config(a->cfg);
    a->cfg.errors = sim::chance(Conf, 0.3);
    if (a->cfg.errors && wc(0.3)) scarce_slots(a->cfg);
    a->make_keys(wr(1, 5));
    {
        Quiet q;
        sim::faults_enabled(false);
    }
    if (!a->open()) return;
    {
        Quiet q;
        sim::faults_enabled(true);
    }
    some_faults(a->cfg);
    a->clients(a->cfg.ops);
    a->check_linear();
    {
        Quiet q;
        sim::faults_enabled(false);
    }
    std::vector<u64> seen;
    a->observe(seen);
    if (!a->cfg.errors) a->next_epoch(seen, true, "all operations", false);
    a->close();
    a->drop();
    if (a->done > 3) sim::note_nontrivial();
}

namespace
{
    enum Ending
    {
        Closed,     // closed, then dropped
        Dropped,    // dropped without closing
        Killed,     // the process ended at some point, the page cache lives
        PowerCut    // only what the disk kept survives
    };
    // One life of the database: open, look at everything, work, end.
    struct Life
    {
        App* a;
        bool first;
        bool close;
        bool close_early = false;   // while clients are at work
        bool observed = false, done = false;
        bool durable = true;
        const char* how = "opening";
        bool ready()
        {
            Quiet q;
            return observed || done;
        }
    };
    void live(Life* l)
    {
        App* a = l->a;
        if (a->cfg.errors) error_faults(false);
        bool ok = a->open();
        if (ok)
        {
            if (!l->first)
            {
                std::vector<u64> seen;
                ok = a->observe(seen);
                if (ok) a->next_epoch(seen, l->durable, l->how);
            }
            {
                Quiet q;
                l->observed = ok;
            }
            if (ok)
            {
                if (a->cfg.errors) error_faults(true, a->cfg.error_scale);
                if (l->close && l->close_early)
                    (void)a->clients_and_close(a->cfg.ops);
                else
                    a->clients(a->cfg.ops);
                a->check_linear();
            }
            if (l->close && !a->close())
            {
                Quiet q;
                l->close = false;   // failed: as if dropped
            }
            a->drop();
        }
        Quiet q;
        l->done = true;
    }
    // Runs lives until they are used up. How the last one ended is known when the next one opens.
    void lives(App* a, u64 n, double p_crash, double p_close, void (*between)(App*, Ending), double p_unlink = 0)
    {
        bool durable = true;
        const char* how = "a clean start";
        for (u64 i = 0; i < n; ++i)
        {
            Life* l;
            {
                Quiet q;
                l = new Life{a, i == 0, wc(p_close)};
                l->close_early = wc(0.2);
                l->durable = durable;
                l->how = how;
            }
            std::thread* t = new std::thread(live, l);
            Ending e = l->close ? Closed : Dropped;
            if (wc(p_crash))
            {
                static const u64 span[] = {100 * ms, 10 * ms, 1 * ms, 100000, 3000 * ms};
                if (wc(0.75))
                    while (!l->ready()) sim::sleep_ns(200000);
                if (wc(p_unlink))
                {
                    // when a compaction removes its sources
                    const u64 n = sim::unlinks() + wr(1, 5);
                    const auto due = [&] {
                        Quiet q;
                        return l->done || sim::unlinks() >= n;
                    };
                    for (int k = 0; k < 2000 && !due(); ++k) sim::sleep_ns(wr(1, 10) * 2000);
                    sim::sleep_ns(wr(1, span[wc(0.7) ? 3 : 1]));
                }
                else
                    sim::sleep_ns(wr(1, span[wr(0, 4)]));
                Quiet q;
                if (!l->done)
                {
                    e = wc(0.75) ? PowerCut : Killed;
                    sim::probe(!a->db ? "crash while opening" : l->observed ? "crash while working" : "crash before the first operation");
                    sim::kill_all_but_me();
                    sim::kernel_reset();
                    if (e == PowerCut) power_failure();
                    sim::restore_globals();
                    (void)a->db.release();
                    for (auto& v: a->ops)
                        for (auto& o: v)
                            if (!o.ok) o.res = ~0ull;
                }
            }
            if (e == Closed || e == Dropped)
            {
                t->join();
                Quiet q;
                if (e == Closed && !l->close) e = Dropped;
                if (l->observed && wc(0.5))
                {
                    // the power may fail later as well
                    power_failure();
                    if (e == Dropped) e = PowerCut;
                }
            }
            else
                setup_logger(0);
            Quiet q;
            // an opening that did not get to observe leaves the epoch as it was
            const bool d = e == PowerCut ? a->cfg.db.sync_on_write : true;
            if (l->observed || i == 0)
            {
                durable = d;
                how = e == Closed ? "closing" : e == Dropped ? "dropping the database" : e == Killed ? "the process was killed" : "a power failure";
            }
            else
            {
                durable = durable && d;
                if (e == PowerCut) how = "a power failure";
            }
            if (between) between(a, e);
        }
        Life* l;
        {
            Quiet q;
            l = new Life{a, false, true};
            l->durable = durable;
            l->how = how;
            sim::faults_enabled(false);
            a->cfg.ops = 2;
            a->cfg.errors = false;
        }
        live(l);
    }
}  // namespace

SIM_SCENARIO(bk_crash)
{
    setup(0.02);
    App* a;
    {
        Quiet q;
        a = new App;
    }
    some_config(a->cfg);
    a->cfg.p_sync = wc(0.5) ? 0.1 : 0.0;
    a->cfg.p_compact = 0.05;
    a->cfg.errors = sim::chance(Conf, 0.2);
    if (a->cfg.errors && wc(0.3)) scarce_slots(a->cfg);
    a->make_keys(wr(1, 5));
    some_faults(a->cfg);
    lives(a, wr(1, 3), 0.85, 0.5, nullptr);
    if (a->done > 3) sim::note_nontrivial();
}

namespace
{
    std::map<std::string, std::string>* g_files = nullptr;   // what the last session left
    void reconfigure(App* a, Ending)
    {
        {
            Quiet q;
            auto& known = *g_files;
            std::map<std::string, std::string> now;
            for (auto& f: disk_files(a->cfg.parts))
                if (f.data) now[f.path] = slurp(f.path);
            // Sealed files are never written again. (Names may come again once every file is gone and the clock went back.)
            for (auto& [path, bytes]: known)
                if (const auto it = now.find(path); it != now.end())
                    SIM_CHECK(it->second == bytes, "bitcask:file-reused", "%s of an earlier session was changed or its name used again", path.c_str());
            known = std::move(now);
        }
        Cfg c = a->cfg;
        some_config(c);
        c.parts = a->cfg.parts;
        a->cfg.db = c.db;
        a->cfg.clients = c.clients;
        a->cfg.ops = wc(0.2) ? 0 : c.ops;
        switch (wr(0, 5))
        {
            case 0: sim::jump_wall_clock(-i64(wr(1, 100)) * 1000 * i64(ms)); break;
            case 1: sim::jump_wall_clock(i64(wr(1, 100)) * 1000 * i64(ms)); break;
            case 2: sim::jump_wall_clock(-i64(wr(1, 2000)) * 1000); break;
            case 3: sim::jump_wall_clock(-i64(86400ull * 1000 * ms) * i64(wr(1, 3000))); break;
            case 4: sim::restart_monotonic_clock(wr(1, 200'000'000)); break;
            default: break;
        }
    }
}  // namespace

SIM_SCENARIO(bk_reopen)
{
    setup(0.02);
    sim::set_bad_close_check(true);
    sim::set_bad_fd_check(true);
    App* a;
    {
        Quiet q;
        g_files = new std::map<std::string, std::string>;
        a = new App;
    }
    some_config(a->cfg);
    a->cfg.p_compact = 0.05;
    a->cfg.errors = sim::chance(Conf, 0.2);
    a->make_keys(wr(1, 5));
    if (wc(0.3)) sim::jump_wall_clock(-i64(86400ull * 1000 * ms) * i64(wr(1, 20000)));
    some_faults(a->cfg);
    lives(a, wr(1, 5), 0, 0.8, reconfigure);
    if (a->done > 3) sim::note_nontrivial();
}

namespace
{
    // Size of the entry of a value on the disk.
    u64 entry_size(const std::string& key, const std::string& val)
    {
        return bitcask::DataEntry(std::string(key), std::vector<char>(val.begin(), val.end())).serialize().size();
    }
    // No more space may be used than the live entries, what is tolerated per file, one tombstone per deletion and the
    // file in use explain.
    std::string space_used(App* a, const std::vector<u64>& now, u64 dels)
    {
        Quiet q;
        const auto files = disk_files(a->cfg.parts);
        for (size_t p = 0; p < a->cfg.parts; ++p)
        {
            u64 live = 0, tomb = 0, total = 0, active = 0, active_size = 0;
            for (size_t k = 0; k < a->keys.size(); ++k)
            {
                if (crc32c_of(a->keys[k]) % a->cfg.parts != p) continue;
                tomb = std::max(tomb, entry_size(a->keys[k], ""));
                if (now[k] == kNone) continue;
                live += entry_size(a->keys[k], now[k] == kEmpty ? "" : a->vals[now[k]].data);
            }
            for (auto& f: files)
                if (f.data && f.part == p)
                {
                    total += f.size;
                    if (f.id > active) active = f.id, active_size = f.size;
                }
            // the active file, and what the tolerated fragmentation allows of all the others
            const double most = double(live) / (1.0 - a->cfg.db.fragmentation_threshold) + double(tomb * dels) + 1;
            if (double(total - active_size) > most)
                return "the sealed files of partition " + std::to_string(p) + " use " + std::to_string(total - active_size) + " bytes, live entries only " +
                       std::to_string(live) + ", threshold " + std::to_string(a->cfg.db.fragmentation_threshold) + ", deletions " + std::to_string(dels);
        }
        return "";
    }
}  // namespace

SIM_SCENARIO(bk_compact_crash)
{
    setup(0.02);
    App* a;
    {
        Quiet q;
        a = new App;
    }
    some_config(a->cfg);
    static const size_t sz[] = {300, 100, 1000};
    a->cfg.db.max_file_size = sz[wr(0, 2)];
    a->cfg.db.auto_compact = wc(0.8);
    a->cfg.db.compaction_interval_s = std::chrono::milliseconds(wr(1, 10));
    a->cfg.p_sync = wc(0.5) ? 0.1 : 0.0;
    a->cfg.p_compact = 0.25;
    a->cfg.p_get = 0.2;
    a->cfg.p_del = 0.25;
    a->cfg.errors = sim::chance(Conf, 0.3);
    a->cfg.error_scale = wc(0.5) ? 3 : 1;
    if (a->cfg.errors && wc(0.3)) scarce_slots(a->cfg);
    a->make_keys(wr(1, 4));
    some_faults(a->cfg);
    lives(a, wr(1, 3), 0.9, 0.3, nullptr, 0.5);
    if (a->done > 3) sim::note_nontrivial();
}

SIM_SCENARIO(bk_compact)
{
    setup(0.04);
    sim::set_bad_close_check(true);
    sim::set_bad_fd_check(true);
    App* a;
    {
        Quiet q;
        a = new App;
    }
    some_config(a->cfg);
    a->cfg.p_compact = wc(0.5) ? 0.15 : 0;
    a->cfg.p_del = wc(0.5) ? 0.3 : 0.1;
    a->cfg.p_get = 0.3;
    if (wc(0.6)) a->cfg.db.compaction_interval_s = std::chrono::milliseconds(wr(1, 20));
    a->cfg.errors = sim::chance(Conf, 0.2);
    a->make_keys(wr(1, 6));
    {
        Quiet q;
        sim::faults_enabled(false);
    }
    a->open();
    {
        Quiet q;
        sim::faults_enabled(true);
    }
    some_faults(a->cfg);
    a->clients(a->cfg.ops);
    // from here on nothing fails any more
    {
        Quiet q;
        sim::faults_enabled(false);
        a->cfg.errors = false;
        a->cfg.clients = 1;
    }
    const bool failures = a->failed > 0;   // what a failed write left in the log is not accounted for
    const bool automatic = a->cfg.db.auto_compact && a->cfg.db.compaction_interval_s.count() <= 20 && wc(0.5);
    if (automatic)
        sim::sleep_ns(500 * ms);
    else
    {
        a->do_compact();   // what was the active file until then is up for compaction only now
        a->do_compact();
    }
    u64 dels = 0;
    {
        Quiet q;
        for (auto& v: a->ops)
            for (auto& o: v) dels += o.kind == Del;
    }
    std::vector<u64> seen;
    a->observe(seen);
    a->next_epoch(seen, true, "compaction", false);
    // what compaction left is what the next opening finds
    const bool closed = wc(0.8) && a->close();
    a->drop();
    if (closed)   // no compaction is under way
    {
        Quiet q;
        const std::string w = failures ? "" : space_used(a, seen, dels);
        SIM_CHECK(w.empty(), "bitcask:space", "after %s compaction %s", automatic ? "automatic" : "manual", w.c_str());
        sim::probe(automatic ? "space after automatic compaction" : "space after manual compaction");
    }
    if (closed && wc(0.5))
    {
        Quiet q;
        power_failure();
    }
    a->open();
    std::vector<u64> again;
    a->observe(again);
    a->next_epoch(again, true, "compaction and reopening");
    a->close();
    a->drop();
    if (a->done > 3) sim::note_nontrivial();
}

namespace
{
    struct Damage
    {
        std::map<std::string, u64> data;   // first damaged byte of data files
        std::set<size_t> hints;            // partitions with a damaged hint file
    };
    // Damages some files; of a running store only bytes of data files.
    void damage(App* a, Damage& d, bool running)
    {
        Quiet q;
        std::vector<DiskFile> files;
        for (auto& f: disk_files(a->cfg.parts))
            if ((f.data || (f.hint && !running)) && f.size > 0) files.push_back(f);
        if (files.empty()) return;
        const u64 n = wr(1, 4);
        for (u64 i = 0; i < n; ++i)
        {
            const DiskFile& f = files[wr(0, files.size() - 1)];
            u64 at = wr(0, f.size - 1);
            switch (running ? wr(0, 1) : wr(0, 3))
            {
                case 0:
                case 1: sim::disk_flip(f.path.c_str(), at, u8(wc(0.3) ? wr(1, 255) : 1u << wr(0, 7))); break;
                case 2: sim::disk_truncate(f.path.c_str(), at); break;
                case 3:
                {
                    const std::string s = slurp(f.path);
                    if (f.data && wc(0.3))
                    {
                        // the length field of the entry that holds that byte, near its limits
                        u64 p = 0, n = 0;
                        while (p + 12 < s.size() && (memcpy(&n, s.data() + p + 4, 8), n > 0 && n < s.size()) && p + 12 + n <= at) p += 12 + n;
                        if (p + 12 < s.size())
                        {
                            static const u64 base[] = {0, 1ull << 63, 1ull << 32};
                            const u64 v = (wc(0.3) ? n : base[wr(0, 2)]) + wr(0, 26) - 13;
                            for (u64 j = 0; j < 8; ++j)
                                if (const u8 m = u8(n >> 8 * j) ^ u8(v >> 8 * j)) sim::disk_flip(f.path.c_str(), p + 4 + j, m);
                            at = std::min(at, p + 4);
                            break;
                        }
                    }
                    const u64 len = wr(1, 12);
                    const bool ones = wc(0.3);
                    for (u64 j = at; j < at + len && j < s.size(); ++j)
                        if (const u8 m = u8(s[j]) ^ (ones ? 0xff : 0)) sim::disk_flip(f.path.c_str(), j, m);
                    break;
                }
            }
            if (f.data)
            {
                const auto it = d.data.find(f.path);
                if (it == d.data.end() || at < it->second) d.data[f.path] = at;
            }
            else
                d.hints.insert(f.part);
        }
    }
    std::map<std::string, std::string> data_bytes(App* a)
    {
        std::map<std::string, std::string> m;
        for (auto& f: disk_files(a->cfg.parts))
            if (f.data) m[f.path] = slurp(f.path);
        return m;
    }
    // The keys whose newest value no damage can hide: every place it is found at comes before the first damaged byte of
    // its file, and the partition's hints are as they were.
    std::vector<bool> safe_keys(App* a, const std::vector<u64>& now, const std::map<std::string, std::string>& before, const Damage& d)
    {
        std::vector<bool> out(a->keys.size());
        for (size_t k = 0; k < a->keys.size(); ++k)
        {
            const size_t p = crc32c_of(a->keys[k]) % a->cfg.parts;
            if (d.hints.count(p)) continue;
            const std::string dir = "db/partition_" + std::to_string(p) + "/";
            bool any = false, hit = false, part_hit = false;
            for (auto& f: d.data) part_hit |= f.first.starts_with(dir);
            if (now[k] > kEmpty)
                for (auto& [path, bytes]: before)
                {
                    if (!path.starts_with(dir)) continue;
                    const std::string& v = a->vals[now[k]].data;
                    const size_t at = bytes.rfind(v);   // the value ends its entry
                    if (at == std::string::npos) continue;
                    any = true;
                    const auto it = d.data.find(path);
                    hit |= it != d.data.end() && at + v.size() > it->second;
                }
            out[k] = !part_hit || (any && !hit);
        }
        return out;
    }
}  // namespace

SIM_SCENARIO(bk_corrupt)
{
    setup(0.02);
    App* a;
    {
        Quiet q;
        a = new App;
    }
    some_config(a->cfg);
    a->cfg.p_compact = 0.1;
    a->make_keys(wr(1, 6));
    some_faults(a->cfg);
    a->open();
    a->clients(a->cfg.ops);
    std::vector<u64> seen, found;
    a->observe(seen);
    a->next_epoch(seen, true, "all operations", false);
    if (wc(0.5)) a->do_compact();
    std::vector<bool> safe;
    Damage dmg;
    const auto look = [&](const char* when) {
        found.assign(a->keys.size(), kNone);
        for (size_t k = 0; k < a->keys.size(); ++k)
        {
            auto r = SyncWait(a->db->get(a->keys[k]));
            Quiet q;
            if (!r)
            {
                SIM_CHECK(!safe[k], "bitcask:damage-spreads", "%s, key %zu, whose files were not damaged, cannot be read (value %d)", when, k, r.error().value);
                sim::probe("a read reported damage");
                found[k] = ~0ull;
                continue;
            }
            found[k] = a->identify(int(k), *r);   // never a value that was not put for this key
            SIM_CHECK(!safe[k] || found[k] == seen[k], "bitcask:damage-spreads", "%s, key %zu, whose files were not damaged, holds %llu instead of %llu", when, k,
                      (unsigned long long)found[k], (unsigned long long)seen[k]);
            if (found[k] != seen[k]) sim::probe(found[k] == kNone ? "a damaged value is gone" : "an older value came back");
        }
    };
    if (wc(0.3))
    {
        // under the running store: what it keeps in memory says where its entries are
        {
            Quiet q;
            const auto before = data_bytes(a);
            damage(a, dmg, true);
            safe = safe_keys(a, seen, before, dmg);
            sim::probe("damage under a running store");
        }
        look("after damage to files in use");
    }
    if (wc(0.9)) a->close();
    a->drop();
    if (dmg.data.empty() || wc(0.5))
    {
        Quiet q;
        const auto before = data_bytes(a);
        damage(a, dmg, false);
        safe = safe_keys(a, seen, before, dmg);
        sim::probe(!dmg.hints.empty() ? "hint file damaged" : !dmg.data.empty() ? "only data files damaged" : "nothing damaged");
    }
    a->open();   // damage does not prevent opening
    look("after damage to some files");
    if (wc(0.5))
    {
        auto r = SyncWait(a->db->compact());
        if (r) sim::probe("compaction of damaged files succeeded");
        look("after compaction with damaged files");
    }
    // what is written from now on is as good as ever
    {
        Quiet q;
        for (size_t k = 0; k < a->keys.size(); ++k)
        {
            a->ops[k].clear();
            a->init[k] = found[k];
        }
    }
    for (size_t k = 0; k < a->keys.size(); ++k)
        if (found[k] == ~0ull || wc(0.5)) a->do_put(int(k));
    a->clients(wr(0, 8));
    a->check_linear();
    if (wc(0.5)) a->do_compact();
    if (wc(0.9)) a->close();
    a->drop();
    a->open();
    a->observe(found);
    {
        // an undamaged newer value hides the damaged ones; without one, what a damaged file shows may differ each time
        Quiet q;
        for (size_t k = 0; k < a->keys.size(); ++k)
            if (!safe[k] && std::none_of(a->ops[k].begin(), a->ops[k].end(), [](const Op& o) { return o.kind != Get && o.ok; })) a->init[k] = found[k];
        a->next_epoch(found, true, "reopening after damage");
    }
    a->close();
    a->drop();
    if (a->done > 3) sim::note_nontrivial();
}

namespace
{
    bool same_files(const std::map<std::string, std::string>& was, const std::map<std::string, std::string>& is)
    {
        for (auto& [p, c]: was)
        {
            const auto it = is.find(p);
            if (it == is.end() || it->second != c) return false;
        }
        return true;
    }
    std::map<std::string, std::string> everything(App* a)
    {
        std::map<std::string, std::string> m;
        for (auto& f: disk_files(a->cfg.parts))
            if (f.data || f.hint) m[f.path] = slurp(f.path);
        m["db/MANIFEST"] = slurp("db/MANIFEST");
        return m;
    }
    void no_workers_left(const char* when, u64 fds)
    {
        Quiet q;
        SIM_CHECK(u64(sim::open_fds()) <= fds, "bitcask:fd-leak", "after %s %d descriptors are open, %llu before", when, sim::open_fds(), (unsigned long long)fds);
    }
}  // namespace

SIM_SCENARIO(bk_open)
{
    setup(0.02);
    sim::set_bad_close_check(true);
    sim::set_bad_fd_check(true);
    App* a;
    {
        Quiet q;
        a = new App;
    }
    some_config(a->cfg);
    a->cfg.p_compact = 0.05;
    a->make_keys(wr(1, 6));
    some_faults(a->cfg);
    setup_logger(1);
    const u64 base = u64(sim::open_fds());
    bool existed = false;
    const u64 n = wr(2, 5);
    for (u64 i = 0; i < n; ++i)
    {
        const u64 how = wr(0, 5);
        std::map<std::string, std::string> was;
        {
            Quiet q;
            was = everything(a);
        }
        if (how == 0 && existed)
        {
            // another number of partitions cannot find the keys: refused
            const size_t parts = a->cfg.parts;
            const size_t other = parts == 1 ? wr(2, 4) : wc(0.5) ? parts - 1 : parts + wr(1, 2);
            sim::set_fault(sim::F_StatFail, wc(0.4) ? 0.2 : 0);
            auto r = SyncWait(BitKV::open(a->cfg.db, a->cfg.io, other));
            sim::set_fault(sim::F_StatFail, 0);
            SIM_CHECK(!r.has_value(), "bitcask:partitions", "a database of %zu partitions was opened with %zu", parts, other);
            Quiet q;
            SIM_CHECK(same_files(was, everything(a)), "bitcask:refused-open-changes", "an opening that was refused changed files");
            sim::probe("wrong number of partitions");
            no_workers_left("an opening that was refused", base);
        }
        else if (how == 1 && existed)
        {
            // a manifest nobody can trust
            std::string m;
            bool cut = false;
            {
                Quiet q;
                m = slurp("db/MANIFEST");
                if ((cut = wc(0.4)))
                    sim::disk_truncate("db/MANIFEST", wr(0, m.size() - 1));
                else
                    for (u64 at = wr(0, m.size() - 1), e = at + wr(1, 4); at < e && at < m.size(); ++at) sim::disk_flip("db/MANIFEST", at, 0xff);
            }
            bool opened = false;
            // a manifest of which only a part is left does not tell the number of partitions
            const size_t parts = cut && wc(0.5) ? a->cfg.parts + wr(1, 2) : a->cfg.parts;
            {
                auto r = SyncWait(BitKV::open(a->cfg.db, a->cfg.io, parts));
                opened = r.has_value();
                SIM_CHECK(!opened || parts == a->cfg.parts, "bitcask:partitions", "a database of %zu partitions was opened with %zu after its manifest was cut", a->cfg.parts, parts);
                if (opened) (void)SyncWait((*r)->close());
            }
            Quiet q;
            if (!opened)
            {
                for (auto& [p, c]: was)
                    SIM_CHECK(p == "db/MANIFEST" || slurp(p) == c, "bitcask:refused-open-changes", "an opening that was refused changed %s", p.c_str());
                sim::probe("damaged manifest refused");
            }
            {
                NoFaults nf;
                const int fd = ::open("db/MANIFEST", O_CREAT | O_TRUNC | O_WRONLY, 0644);
                if (fd < 0 || ::write(fd, m.data(), m.size()) != ssize_t(m.size()) || ::fsync(fd)) sim::sim_error("restoring the manifest");
                ::close(fd);
            }
            no_workers_left("a damaged manifest", base);
        }
        else if (how <= 3)
        {
            // anything may fail while it opens, but it ends, and nothing is lost by it
            a->cfg.errors = true;
            static const sim::Fault fs[] = {sim::F_Eio, sim::F_Enospc, sim::F_FsyncFail, sim::F_Emfile, sim::F_StatFail};
            for (const auto f: fs) sim::set_fault(f, wc(0.5) ? 0.15 : 0);
            const bool auto_compact = a->cfg.db.auto_compact;
            a->cfg.db.auto_compact = false;   // data that could not be read may be taken for garbage
            const bool opened = a->open();
            for (const auto f: fs) sim::set_fault(f, 0);
            a->cfg.db.auto_compact = auto_compact;
            a->cfg.errors = false;
            sim::probe(opened ? "opened in spite of errors" : "opening failed");
            if (opened)
            {
                if (wc(0.7)) a->close();
                a->drop();
            }
            no_workers_left("an opening with errors", base);
            Quiet q;
            if (opened && wc(0.3))
            {
                // everything before was closed, and nothing was written since
                power_failure();
                sim::probe("power failure after opening");
            }
            existed = !slurp("db/MANIFEST").empty();   // an empty store may be gone with the power
        }
        else
        {
            const bool was_open = a->open();
            if (!was_open) break;
            if (existed)
            {
                std::vector<u64> seen;
                a->observe(seen);
                a->next_epoch(seen, true, "other openings");
            }
            existed = true;
            a->clients(a->cfg.ops);
            a->check_linear();
            std::vector<u64> seen;
            a->observe(seen);
            a->next_epoch(seen, true, "all operations", false);
            a->close();
            a->drop();
            no_workers_left("closing and dropping", base);
            // a key's partition is what CRC32C says
            Quiet q;
            for (auto& f: disk_files(a->cfg.parts))
            {
                if (!f.data) continue;
                const std::string s = slurp(f.path);
                for (auto& [id, v]: a->vals)
                    if (v.data.size() > 8 && s.find(v.data) != std::string::npos)
                        SIM_CHECK(crc32c_of(a->keys[size_t(v.key)]) % a->cfg.parts == f.part, "bitcask:routing", "a value of key %d is in partition %zu of %zu", v.key, f.part,
                                  a->cfg.parts);
            }
        }
    }
    {
        Quiet q;
        sim::faults_enabled(false);
    }
    a->open();
    std::vector<u64> seen;
    a->observe(seen);
    a->next_epoch(seen, true, "all the openings");
    a->close();
    a->drop();
    no_workers_left("the end", base);
    if (existed) sim::note_nontrivial();
}

SIM_SCENARIO(bk_fds)
{
    setup(0.04);
    sim::set_bad_close_check(true);
    sim::set_bad_fd_check(true);
    App* a;
    {
        Quiet q;
        a = new App;
    }
    some_config(a->cfg);
    static const size_t sz[] = {100, 300, 200, 1000};
    a->cfg.db.max_file_size = sz[wr(0, 3)];
    a->cfg.db.max_open_sealed_files = wr(0, 4);
    if (a->cfg.db.sync_interval.count() < 20) a->cfg.db.sync_interval = std::chrono::milliseconds(20);
    a->cfg.p_get = 0.6;
    a->cfg.p_compact = wc(0.5) ? 0.05 : 0;
    a->cfg.ops = wr(10, 40);
    a->cfg.errors = sim::chance(Conf, 0.25);
    if (a->cfg.errors && wc(0.3)) scarce_slots(a->cfg);
    a->make_keys(wr(2, 10));
    some_faults(a->cfg);
    setup_logger(1);
    const u64 base = u64(sim::open_fds());
    const auto files_open = [&](bool exact) {
        // files only; rings and event descriptors come on top
        Quiet q;
        u64 n = 0;
        std::set<std::string> on_disk;
        if (exact)
            for (auto& f: disk_files(a->cfg.parts)) on_disk.insert(f.path);
        for (int fd = 0; fd < 200; ++fd)
        {
            const std::string d = sim::fd_desc(fd);
            const size_t at = d.find("db/partition_");
            if (at == std::string::npos) continue;
            ++n;
            std::string path = d.substr(at);
            while (!path.empty() && (path.back() == ')' || path.back() == ' ')) path.pop_back();
            if (exact)
                SIM_CHECK(on_disk.count(path), "bitcask:fd-deleted", "%s is kept open though it was deleted", path.c_str());
        }
        return n;
    };
    const u64 lives_n = wr(1, 2);
    for (u64 i = 0; i < lives_n; ++i)
    {
        if (a->cfg.errors) error_faults(false);
        if (!a->open()) break;
        if (i > 0)
        {
            std::vector<u64> seen;
            if (a->observe(seen))
                a->next_epoch(seen, true, "reopening");
            else
                break;
        }
        if (a->cfg.errors) error_faults(true, a->cfg.error_scale);
        // per partition: the active file and the sealed ones; in flight: a read per client, three files of a compaction, one being opened
        const u64 idle = a->cfg.parts * (a->cfg.db.max_open_sealed_files + 1);
        const u64 busy = idle + u64(a->cfg.clients) * 2 + a->cfg.parts * 5;
        bool stop = false;
        std::thread watch([&] {
            for (;;)
            {
                {
                    Quiet q;
                    if (stop) break;
                }
                const u64 n = files_open(false);
                SIM_CHECK(n <= busy, "bitcask:fd-limit", "%llu files are open, with %zu partitions, %zu sealed files each and %d clients", (unsigned long long)n, a->cfg.parts,
                          a->cfg.db.max_open_sealed_files, a->cfg.clients);
                sim::sleep_ns(wr(1, 20) * (wc(0.8) ? 200000 : 10000));
            }
        });
        const bool early = wc(0.2);
        if (early)
            (void)a->clients_and_close(a->cfg.ops);
        else
            a->clients(a->cfg.ops);
        {
            Quiet q;
            stop = true;
        }
        watch.join();
        a->check_linear();
        error_faults(false);
        if (!a->cfg.scarce && (!a->cfg.db.auto_compact || a->cfg.db.compaction_interval_s.count() > 1000))
        {
            sim::sleep_ns(4000 * ms);   // whatever was signalled is done
            const u64 n = files_open(true);
            SIM_CHECK(n <= idle, "bitcask:fd-limit", "at rest %llu files are open, with %zu partitions and %zu sealed files each", (unsigned long long)n, a->cfg.parts,
                      a->cfg.db.max_open_sealed_files);
            sim::probe("files counted at rest");
        }
        // dropped without being closed, what was under way is not cleaned up
        const bool closed = wc(0.8) && a->close();
        if (closed && wc(0.5))
        {
            // still there, but of no use any more
            auto r = SyncWait(a->db->get(a->keys[0]));
            auto w = SyncWait(a->db->put(std::string(a->keys[0]), std::vector<char>(3, 'x')));
            auto d = SyncWait(a->db->del(a->keys[0]));
            SIM_CHECK(!r && !w && !d, "bitcask:use-after-close", "an operation on a closed database succeeded");
            if (wc(0.5)) (void)SyncWait(a->db->close());
            sim::probe("used after closing");
        }
        a->drop();
        if (!closed) break;
        no_workers_left("closing and dropping the database", base);
    }
    if (a->done > 3) sim::note_nontrivial();
}

// C23: the ids that order the files of a partition, across sessions, whatever the clock does.
SIM_SCENARIO(bk_ids)
{
    setup(0);
    setup_logger(1);
    const u64 part = wc(0.5) ? wr(0, 3) : wc(0.3) ? 65535 : wr(0, 65535);
    std::vector<u64> used;       // of the files that exist
    u64 top = 0;                 // greatest of them
    const u64 lives = wr(1, 4);
    for (u64 life = 0; life < lives; ++life)
    {
        bitcask::FileIdGenerator gen(static_cast<uint16_t>(part));
        for (const u64 id: used) gen.start_after(id);
        const u64 calls = wr(1, 60);
        for (u64 c = 0; c < calls; ++c)
        {
            if (wc(0.3))
            {
                Quiet q;
                static const u64 span[] = {2, 100, 100000, 10000000};
                const i64 s = i64(wr(0, span[wr(0, 3)])) * 1000 * i64(ms);
                sim::jump_wall_clock(wc(0.5) ? s : -s);
            }
            // mostly one at a time, now and then more than fit in a second
            const u64 n = wc(0.02) ? wr(60000, 140000) : wr(1, 5);
            for (u64 k = 0; k < n; ++k)
            {
                const u64 id = gen.next();
                const auto f = bitcask::FileID::decode(id);
                SIM_CHECK(f.encode() == id && f.partition == part, "bitcask:file-id", "id %llx of partition %llu decodes to another", (unsigned long long)id, (unsigned long long)part);
                SIM_CHECK(used.empty() || (id > top && !bitcask::file_id_compare_by_time(id, top) && bitcask::file_id_compare_by_time(top, id)), "bitcask:file-id",
                          "file id %llx was given out after %llx", (unsigned long long)id, (unsigned long long)top);
                top = id;
                if (used.empty() || k + 1 == n || n < 10) used.push_back(id);
            }
            if (n > 65536) sim::note_nontrivial();
        }
        // some files are gone by the next session
        Quiet q;
        if (wc(0.6))
        {
            std::vector<u64> left;
            for (const u64 id: used)
                if (wc(0.6)) left.push_back(id);
            used = left;
        }
        top = 0;
        for (const u64 id: used) top = std::max(top, id);
        if (used.size() > 1) sim::note_nontrivial();
    }
}

// Decoding of single entries from arbitrary bytes.
SIM_SCENARIO(bk_decode)
{
    setup(0);
    const u64 n = wr(1, 40);
    for (u64 i = 0; i < n; ++i)
    {
        std::string key, val;
        {
            Quiet q;
            key.assign(wc(0.1) ? 0 : wc(0.1) ? wr(200, 70000) : wr(0, 40), char(wr(0, 255)));
            val.assign(wc(0.1) ? 0 : wc(0.1) ? wr(200, 70000) : wr(0, 60), char(wr(0, 255)));
        }
        const bool tomb = wc(0.2);
        std::vector<char> bytes;
        u64 ts;
        {
            const bitcask::DataEntry e(std::string(key), std::vector<char>(val.begin(), val.end()), tomb ? bitcask::kFlagTombstone : 0);
            ts = e.timestamp_ns;
            bytes = e.serialize();
        }
        const u64 whole = bytes.size();
        bool changed = false, cut = false;
        u64 len;
        {
            Quiet q;
            const u64 extra = wc(0.5) ? wr(0, 50) : 0;
            for (u64 j = 0; j < extra; ++j) bytes.push_back(char(wr(0, 255)));
            if (wc(0.15))
            {
                // the length field, near its limits
                const u64 was = whole - 12;
                static const u64 base[] = {0, 1ull << 63, 1ull << 32, 1ull << 31};
                const u64 v = (wc(0.3) ? was : base[wr(0, 3)]) + wr(0, 26) - 13;
                memcpy(bytes.data() + 4, &v, 8);
                changed |= v != was;
            }
            if (wc(0.6))
            {
                const u64 flips = wr(1, 4);
                for (u64 j = 0; j < flips; ++j)
                {
                    const u64 at = wc(0.4) ? wr(0, std::min<u64>(whole, 32) - 1) : wr(0, whole - 1);
                    const char was = bytes[at];
                    bytes[at] = wc(0.2) ? char(0xff) : wc(0.2) ? 0 : char(was ^ (1 << wr(0, 7)));
                    changed |= bytes[at] != was;
                }
            }
            len = bytes.size();
            if (wc(0.3))
            {
                len = wr(0, bytes.size());
                cut = len < whole;
            }
        }
        // a block of exactly that size: reading behind it is seen
        char* block = new char[len ? len : 1];
        memcpy(block, bytes.data(), len);
        auto r = bitcask::DataEntry::deserialize(std::span<const char>(block, len));
        {
            Quiet q;
            if (r)
            {
                auto& [d, size] = *r;
                SIM_CHECK(!cut && size == whole, "bitcask:decode", "an entry of %llu bytes was decoded as %llu of %llu bytes", (unsigned long long)whole, (unsigned long long)size,
                          (unsigned long long)len);
                SIM_CHECK(d.key == key && std::string(d.value.begin(), d.value.end()) == val && d.is_tombstone() == tomb && d.timestamp_ns == ts, "bitcask:decode",
                          "a decoded entry is not the encoded one (changed: %d)", int(changed));
                sim::probe("decoded");
                sim::note_nontrivial();
            }
            else
            {
                SIM_CHECK(changed || cut, "bitcask:decode", "an intact entry of %llu bytes was refused (value %d)", (unsigned long long)whole, r.error().value);
                sim::probe(cut ? "cut entry refused" : "damaged entry refused");
            }
        }
        delete[] block;
        // a hint entry, which has no checksum: anything but reading outside is allowed
        const bitcask::HintEntry h{ts, wr(0, 1000), u32(wr(0, 1000)), std::string(key)};
        auto hb = h.serialize();
        u64 hl = hb.size();
        bool hc = false;
        {
            Quiet q;
            if (wc(0.6))
            {
                const u64 at = wr(0, hl - 1);
                hb[at] = char(hb[at] ^ (1 << wr(0, 7)));
                hc = true;
            }
            if (wc(0.3))
            {
                const u64 l = wr(0, hl);
                hc |= l < hl;
                hl = l;
            }
        }
        block = new char[hl ? hl : 1];
        memcpy(block, hb.data(), hl);
        auto hr = bitcask::HintEntry::deserialize(std::span<const char>(block, hl));
        {
            Quiet q;
            if (!hc)
                SIM_CHECK(hr && hr->key == key && hr->entry_pos == h.entry_pos && hr->total_sz == h.total_sz && hr->timestamp_ns == ts, "bitcask:decode",
                          "an intact hint entry was not decoded");
        }
        delete[] block;
    }
}
