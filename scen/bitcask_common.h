// A bitcask database under test with its reference model: one register per key, checked by linearizability per
// epoch (from opening to the next opening).
#pragma once
#include "kio_common.h"

#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include <dirent.h>

#include "bitcask/include/bitcask.h"
#include "kio/sync/sync_wait.h"

namespace bk
{
    using namespace scen;
    using bitcask::BitcaskConfig;
    using bitcask::BitKV;
    using kio::SyncWait;

    constexpr u64 kNone = 0, kEmpty = 1;
    constexpr size_t kMaxOps = 60;
    enum Kind : u8
    {
        Get,
        Put,
        Del
    };
    struct Op
    {
        Kind kind;
        bool ok = false;        // ended successfully; otherwise its effect is unknown
        u64 val = kNone;        // written or read
        u64 inv = 0, res = ~0ull;
    };
    struct Val
    {
        int key;
        std::string data;
    };
    struct State
    {
        u64 mask, val;
        bool operator<(const State& o) const { return mask < o.mask || (mask == o.mask && val < o.val); }
    };

    // All values the key may hold after the epoch, given what was observed; empty: not linearizable.
    inline std::set<u64> linearize(const std::vector<Op>& all, u64 init)
    {
        std::vector<Op> ops;
        for (auto& o: all)
            if (o.ok || o.kind != Get) ops.push_back(o);
        std::set<u64> finals;
        std::set<State> seen;
        u64 must = 0;
        for (size_t i = 0; i < ops.size(); ++i)
            if (ops[i].ok) must |= 1ull << i;
        std::vector<State> todo{{0, init}};
        while (!todo.empty())
        {
            const State s = todo.back();
            todo.pop_back();
            if (!seen.insert(s).second) continue;
            if ((s.mask & must) == must) finals.insert(s.val);
            u64 first = ~0ull;
            for (size_t i = 0; i < ops.size(); ++i)
                if (!(s.mask >> i & 1) && ops[i].ok && ops[i].res < first) first = ops[i].res;
            for (size_t i = 0; i < ops.size(); ++i)
            {
                if ((s.mask >> i & 1) || ops[i].inv > first) continue;
                const u64 m = s.mask | 1ull << i;
                if (ops[i].kind != Get)
                    todo.push_back({m, ops[i].val});
                else if (ops[i].val == s.val)
                    todo.push_back({m, s.val});
            }
        }
        return finals;
    }

    struct Cfg
    {
        BitcaskConfig db;
        WorkerConfig io;
        size_t parts = 1;
        bool errors = false;            // injected faults may make operations fail
        bool scarce = false;            // and so may a lack of slots, by exceptions
        double error_scale = 1;
        int clients = 2;
        u64 ops = 12;                   // per client
        double p_del = 0.15, p_get = 0.35, p_sync = 0.03, p_compact = 0.03;
        u64 max_value = 400;
    };

    class App
    {
    public:
        Cfg cfg;
        std::vector<std::string> keys;
        std::vector<std::vector<Op>> ops;       // of this epoch
        std::vector<u64> init;
        std::map<u64, Val> vals;
        u64 clock = 1, next_val = 2, last_sync = 0, done = 0, failed = 0, reads = 0;
        std::unique_ptr<BitKV> db;
        bool closing = false;   // operations may find the store closed

        void make_keys(u64 n)
        {
            Quiet q;
            for (u64 i = 0; i < n; ++i)
            {
                std::string k;
                switch (wr(0, 5))
                {
                    case 4: k = std::string(wc(0.1) ? wr(4000, 9000) : wr(30, 300), char('a' + i)); break;
                    case 5: k = std::string("\0\xff k", 4) + char('0' + i); break;
                    default: k = "k" + std::to_string(wr(0, 9)) + "-" + std::to_string(i); break;
                }
                if (i == 0 && wc(0.1)) k = "";
                keys.push_back(k);
            }
            ops.resize(n);
            init.resize(n);
        }
        int begin(Kind k, int key, u64 val)
        {
            Quiet q;
            auto& v = ops[size_t(key)];
            v.push_back(Op{k, false, val, clock++, ~0ull});
            sim::tracef("op %s key %d value %llu", k == Get ? "get" : k == Put ? "put" : "del", key, (unsigned long long)val);
            return int(v.size()) - 1;
        }
        void end(int key, int i, bool ok, u64 val, bool noop = false)
        {
            Quiet q;
            auto& o = ops[size_t(key)][size_t(i)];
            if (noop) o.kind = Get;   // a read that did not happen
            o.ok = ok;
            if (ok) o.res = clock++;
            o.val = val;
            sim::tracef("op ends: key %d value %llu %s", key, (unsigned long long)val, ok ? "ok" : "failed");
            (ok ? done : failed)++;
        }
        // The identity of a value read for the key.
        u64 identify(int key, const std::optional<std::vector<char>>& v)
        {
            Quiet q;
            ++reads;
            if (!v) return kNone;
            if (v->empty()) return kEmpty;
            u64 id = 0;
            if (v->size() >= 8) memcpy(&id, v->data(), 8);
            const auto it = vals.find(id);
            SIM_CHECK(it != vals.end(), "bitcask:foreign-value", "a get of key %d returned %zu bytes nobody ever put", key, v->size());
            SIM_CHECK(it->second.key == key, "bitcask:foreign-value", "a get of key %d returned a value of key %d", key, it->second.key);
            SIM_CHECK(it->second.data.size() == v->size() && !memcmp(it->second.data.data(), v->data(), v->size()), "bitcask:damaged-value",
                      "a get of key %d returned a damaged value (%zu bytes of %zu)", key, v->size(), it->second.data.size());
            return id;
        }
        u64 fresh(int key, std::vector<char>& out)
        {
            Quiet q;
            if (wc(0.04))
            {
                out.clear();
                return kEmpty;
            }
            const u64 id = next_val++;
            const size_t n = 8 + (wc(0.15) ? wr(0, cfg.max_value) : wr(0, 40));
            std::string s(n, 0);
            memcpy(s.data(), &id, 8);
            for (size_t i = 8; i < n; ++i) s[i] = char(id * 31 + i * 7);
            out.assign(s.begin(), s.end());
            vals[id] = {key, s};
            return id;
        }
        // What the store throws, when its worker has no slot left for an operation, is a failure of the operation.
        template<typename F>
        auto tried(F&& f) -> decltype(f())
        {
            try
            {
                return f();
            }
            catch (const std::system_error&)   // see open()
            {
                throw;
            }
            catch (const std::runtime_error&)
            {
                sim::probe("an operation threw");
                SIM_CHECK(cfg.scarce, "bitcask:threw", "an operation threw, which nothing caused");
                return std::unexpected(kio::Error{kio::ErrorCategory::Application, 77});
            }
        }
        // Returns whether the operation certainly had no effect.
        bool op_error(const char* what, const kio::Error& e)
        {
            Quiet q;
            if (closing && e.category == kio::Error::from_errno(EBADF).category && e.value == EBADF)
            {
                sim::probe("an operation found the store closed");
                return true;
            }
            SIM_CHECK(cfg.errors, "bitcask:error", "%s failed (category %d, value %d), which nothing caused", what, int(e.category), e.value);
            return false;
        }
        void do_put(int key)
        {
            std::vector<char> v;
            const u64 id = fresh(key, v);
            const int i = begin(Put, key, id);
            auto r = tried([&] {
                return wc(0.3) ? SyncWait(db->put(std::string(keys[size_t(key)]), std::string(v.begin(), v.end())))
                               : SyncWait(db->put(std::string(keys[size_t(key)]), std::vector<char>(v)));
            });
            const bool noop = !r && op_error("a put", r.error());
            end(key, i, r.has_value(), id, noop);
        }
        void do_del(int key)
        {
            const int i = begin(Del, key, kNone);
            auto r = tried([&] { return SyncWait(db->del(keys[size_t(key)])); });
            const bool noop = !r && op_error("a del", r.error());
            end(key, i, r.has_value(), kNone, noop);
        }
        void do_get(int key)
        {
            const int i = begin(Get, key, kNone);
            u64 id = kNone;
            bool ok;
            if (wc(0.2))
            {
                auto r = tried([&] { return SyncWait(db->get_string(keys[size_t(key)])); });
                ok = r.has_value();
                if (!ok)
                    op_error("a get", r.error());
                else if (r->has_value())
                    id = identify(key, std::vector<char>((*r)->begin(), (*r)->end()));
            }
            else
            {
                auto r = tried([&] { return SyncWait(db->get(keys[size_t(key)])); });
                ok = r.has_value();
                if (!ok)
                    op_error("a get", r.error());
                else
                    id = identify(key, *r);
            }
            end(key, i, ok, id);
        }
        void do_sync()
        {
            u64 t;
            {
                Quiet q;
                t = clock++;
            }
            auto r = tried([&] { return SyncWait(db->sync()); });
            if (!r) op_error("a sync", r.error());
            Quiet q;
            if (r && t > last_sync) last_sync = t;
        }
        void do_compact()
        {
            auto r = tried([&] { return SyncWait(db->compact()); });
            if (!r) op_error("a compaction", r.error());
            sim::probe("manual compaction");
        }
        void client(u64 n)
        {
            for (u64 k = 0; k < n; ++k)
            {
                const int key = int(wr(0, keys.size() - 1));
                bool full;
                {
                    Quiet q;
                    const auto& o = ops[size_t(key)];
                    // each write of unknown effect doubles the histories to look at
                    full = o.size() >= kMaxOps || std::ranges::count_if(o, [](const Op& x) { return x.kind != Get && !x.ok; }) >= 8;
                }
                if (wc(0.1)) sim::sleep_ns(wr(1, 3) * (wc(0.2) ? ms : 50000));
                if (wc(cfg.p_sync))
                    do_sync();
                else if (wc(cfg.p_compact))
                    do_compact();
                else if (full)
                    continue;
                else if (wc(cfg.p_get))
                    do_get(key);
                else if (wc(cfg.p_del))
                    do_del(key);
                else
                    do_put(key);
            }
        }
        void clients(u64 ops_each)
        {
            std::vector<std::thread> th;
            th.reserve(size_t(cfg.clients));
            for (int i = 1; i < cfg.clients; ++i) th.emplace_back([this, ops_each] { client(ops_each); });
            client(ops_each);
            for (auto& t: th) t.join();
        }
        // Closes while the clients are at work: whoever comes later is told so. Returns whether closing succeeded.
        bool clients_and_close(u64 ops_each)
        {
            bool ok = false;
            {
                Quiet q;
                closing = true;
            }
            std::thread t([this, &ok] {
                static const u64 span[] = {1 * ms, 10 * ms, 100000};
                sim::sleep_ns(wr(1, span[wr(0, 2)]));
                const bool r = close();
                Quiet q;
                ok = r;
                sim::probe("closed while clients were at work");
            });
            clients(ops_each);
            t.join();
            return ok;
        }
        bool open()
        {
            {
                Quiet q;
                closing = false;
            }
            try
            {
                auto io = cfg.io;
                if (cfg.scarce && !cfg.errors) io.max_op_slots = 1024, io.uring_queue_depth = 128;
                auto r = tried([&] { return SyncWait(BitKV::open(cfg.db, io, cfg.parts)); });
                if (!r)
                {
                    op_error("opening", r.error());
                    return false;
                }
                db = std::move(*r);
                return true;
            }
            catch (const std::system_error& e)   // no resources for its threads
            {
                op_error("creating the workers", kio::Error{kio::ErrorCategory::Application, e.code().value()});
                return false;
            }
        }
        bool close()
        {
            auto r = tried([&] { return SyncWait(db->close()); });
            if (!r) op_error("closing", r.error());
            return r.has_value();
        }
        void drop() { db.reset(); }

        // Reads every key; returns false if a read failed.
        bool observe(std::vector<u64>& out)
        {
            out.assign(keys.size(), kNone);
            for (size_t k = 0; k < keys.size(); ++k)
            {
                auto r = tried([&] { return SyncWait(db->get(keys[k])); });
                if (!r)
                {
                    op_error("a get after opening", r.error());
                    return false;
                }
                out[k] = identify(int(k), *r);
            }
            return true;
        }
        static std::string list(const std::set<u64>& s)
        {
            std::string o;
            for (u64 v: s) o += " " + std::to_string(v);
            return o;
        }
        std::string history(size_t k) const
        {
            std::string o;
            for (auto& p: ops[k])
                o += (o.empty() ? "" : ", ") + std::string(p.kind == Get ? "get" : p.kind == Put ? "put" : "del") + " " + std::to_string(p.val) + " [" +
                     std::to_string(p.inv) + "-" + (p.ok ? std::to_string(p.res) : "?") + "]";
            return o.substr(0, 700);
        }
        void check_linear()
        {
            Quiet q;
            for (size_t k = 0; k < keys.size(); ++k)
                if (linearize(ops[k], init[k]).empty())
                    sim::violation("bitcask:linearizable", "key %zu, first %llu: %s", k, (unsigned long long)init[k], history(k).c_str());
        }
        // What may be found when opening again: everything that ended survives (durable), or what ended before the last sync.
        // Without reopening, a failed write may still come to light when the log is read the next time.
        void next_epoch(const std::vector<u64>& seen, bool durable, const char* how, bool reopened = true)
        {
            Quiet q;
            for (size_t k = 0; k < keys.size(); ++k)
            {
                std::set<u64> ok = linearize(ops[k], init[k]);
                if (ok.empty()) sim::violation("bitcask:linearizable", "key %zu, first %llu: %s", k, (unsigned long long)init[k], history(k).c_str());
                if (!durable)
                {
                    // every write not certainly overwritten by one that ended before the last sync began
                    const auto gone = [&](u64 res) {
                        for (auto& o: ops[k])
                            if (o.kind != Get && o.ok && o.res < last_sync && res < o.inv) return true;
                        return false;
                    };
                    if (!gone(0)) ok.insert(init[k]);
                    for (auto& o: ops[k])
                        if (o.kind != Get && !gone(o.res)) ok.insert(o.val);
                }
                if (!ok.count(seen[k]))
                    sim::violation("bitcask:lost", "after %s key %zu holds %llu instead of one of%s; first %llu, %s; last sync %llu", how, k, (unsigned long long)seen[k],
                                   list(ok).c_str(), (unsigned long long)init[k], history(k).c_str(), (unsigned long long)last_sync);
                init[k] = seen[k];
                std::erase_if(ops[k], [&](const Op& o) { return reopened || o.ok || o.kind == Get; });
            }
            last_sync = 0;
        }
    };

    inline void some_config(Cfg& c)
    {
        c.db.directory = "db";
        c.parts = wr(1, 3);
        static const size_t sz[] = {1000, 300, 4000, 100, 100000};
        c.db.max_file_size = sz[wr(0, 4)];
        c.db.sync_on_write = wc(0.4);
        static const int si[] = {1000, 1, 20};
        c.db.sync_interval = std::chrono::milliseconds(si[wr(0, 2)]);
        c.db.auto_compact = wc(0.7);
        static const double th[] = {0.5, 0.1, 0.9, 0.01};
        c.db.fragmentation_threshold = th[wr(0, 3)];
        static const int ci[] = {120000, 1, 5};
        c.db.compaction_interval_s = std::chrono::milliseconds(ci[wr(0, 2)]);
        static const size_t rb[] = {65536, 64, 256, 1000};
        c.db.read_buffer_size = rb[wr(0, 3)];
        static const size_t wb[] = {4096, 1, 200, 600};
        c.db.write_buffer_size = wb[wr(0, 3)];
        c.db.max_open_sealed_files = wc(0.5) ? wr(1, 3) : 100;
        static const int wf[] = {O_CREAT | O_WRONLY, O_CREAT | O_RDWR, O_CREAT | O_WRONLY | O_CLOEXEC | O_EXCL, O_CREAT | O_RDWR | O_TRUNC};
        c.db.write_flags = wf[wc(0.3) ? wr(1, 3) : 0];
        if (wc(0.2)) c.db.read_flags = O_RDONLY | O_CLOEXEC;
        if (wc(0.2)) c.db.file_mode = 0600, c.db.dir_mode = 0700;
        c.io.uring_queue_depth = 128;
        c.io.default_op_slots = wr(8, 128);
        c.clients = int(wr(1, 4));
        c.ops = wr(4, 25);
        if (wc(0.12)) c.max_value = wr(3000, 20000);   // entries longer than any buffer
    }
    // Workers that run out of slots for operations, which then end by an exception, or of room for submissions.
    inline void scarce_slots(Cfg& c)
    {
        c.scarce = true;
        if (wc(0.5))
        {
            c.io.uring_queue_depth = wr(4, 8);
            return;
        }
        // without a slot for their timers the background loops would not pause at all
        c.io.max_op_slots = wr(2, 7);
        c.io.default_op_slots = wr(1, c.io.max_op_slots);
        c.db.sync_on_write = true;
        c.db.auto_compact = false;
    }
    // ---- the oracle's view of the disk ------------------------------------------------------------------------------
    struct NoFaults
    {
        bool was;
        NoFaults() : was(sim::faults_on()) { sim::faults_enabled(false); }
        ~NoFaults() { sim::faults_enabled(was); }
    };
    struct DiskFile
    {
        std::string path;
        bool data = false, hint = false;
        size_t part = 0;
        u64 id = 0, size = 0;
    };
    // Call in a quiet section.
    inline std::vector<DiskFile> disk_files(size_t parts)
    {
        NoFaults n;
        std::vector<DiskFile> out;
        for (size_t p = 0; p < parts; ++p)
        {
            const std::string dir = "db/partition_" + std::to_string(p);
            std::error_code ec;
            std::filesystem::directory_iterator it(dir, ec);
            if (ec) continue;
            for (auto& e: it)
            {
                DiskFile f;
                f.path = e.path().string();
                const std::string name = e.path().filename().string();
                f.data = name.starts_with("data_") && name.ends_with(".db");
                f.hint = name.starts_with("hint_") && name.ends_with(".ht");
                f.part = p;
                if (f.data || f.hint) f.id = std::strtoull(name.c_str() + 5, nullptr, 10);
                f.size = e.file_size(ec);
                out.push_back(f);
            }
        }
        std::sort(out.begin(), out.end(), [](auto& a, auto& b) { return a.path < b.path; });
        return out;
    }
    // The power fails; the machine may have been started a short while ago only, by its monotonic clock.
    inline void power_failure()
    {
        sim::disk_crash();
        if (wc(0.6)) sim::restart_monotonic_clock(wr(1, 200'000'000));
    }
    inline std::string slurp(const std::string& path)
    {
        NoFaults n;
        std::string s;
        if (const int fd = ::open(path.c_str(), O_RDONLY); fd >= 0)
        {
            char buf[4096];
            for (ssize_t k; (k = ::read(fd, buf, sizeof buf)) > 0;) s.append(buf, size_t(k));
            ::close(fd);
        }
        return s;
    }
    inline u32 crc32c_of(const std::string& s)
    {
        u32 c = ~0u;
        for (const char ch: s)
        {
            c ^= u8(ch);
            for (int i = 0; i < 8; ++i) c = c >> 1 ^ (c & 1 ? 0x82f63b78u : 0);
        }
        return ~c;
    }

    // Errors of system calls. While a database opens they are off by default: data which cannot be read then is skipped,
    // as documented in Partition::recover().
    inline void error_faults(bool on, double scale = 1)
    {
        static const double p[] = {0.02, 0.03, 0.03, 0.03, 0.03};
        static const sim::Fault f[] = {sim::F_Eio, sim::F_Enospc, sim::F_FsyncFail, sim::F_Emfile, sim::F_StatFail};
        for (int i = 0; i < 5; ++i) sim::set_fault(f[i], on && sim::chance(Conf, 0.35) ? p[i] * scale : 0);
    }
    inline void some_faults(Cfg& c)
    {
        if (sim::chance(Conf, 0.4)) sim::set_fault(sim::F_ShortRead, 0.1);
        if (sim::chance(Conf, 0.4)) sim::set_fault(sim::F_ShortWrite, 0.1);
        if (c.errors) error_faults(true, c.error_scale);
    }
}  // namespace bk
