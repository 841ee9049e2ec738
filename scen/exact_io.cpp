// C05: exact transfers. C06: sendfile.
#include "net_common.h"

using namespace scen;

namespace
{
    struct Tot
    {
        u64 done = 0, jobs = 0;
    };
    // The result of the last operation on this descriptor since `mark`.
    bool last_result_is(u64 mark, int fd, u64 obj, i64 err)
    {
        Quiet q;
        for (u64 i = sim::op_log_size(); i > mark; --i)
        {
            const auto& r = sim::op_log(i - 1);
            if (r.user_data == ~0ull || r.fd != fd || r.obj != obj) continue;
            return r.state == 2 && r.res == -err;
        }
        return false;
    }
    std::string canaried(u64 n) { return std::string(n + 32, '\x6b'); }
    void check_canary(const std::string& b, u64 n)
    {
        for (u64 i = 0; i < 16; ++i) SIM_CHECK(b[i] == '\x6b' && b[n + 16 + i] == '\x6b', "exact:overrun", "bytes outside the buffer were changed");
    }
    void check_untouched(const std::string& b, u64 from, u64 n)
    {
        for (u64 i = from; i < n; ++i) SIM_CHECK(b[16 + i] == '\x6b', "exact:overrun", "bytes beyond the data transferred were changed");
    }

    // ---- streams ---------------------------------------------------------------------------------------------------
    struct Conn
    {
        u64 id;
        Worker* w;
        Tot* tot;
        int fd = -1;
        int peer = -1;
        u64 total = 0;           // bytes the peer sends
        u64 peer_sent = 0;       // oracle
        int peer_end = 0;        // 0 close, 1 reset
        bool peer_ended = false;
        bool finished = false;
        u64 max_chunk = 300;
        std::thread thread;
        // writing
        u64 written = 0;         // acknowledged by write calls
        u64 attempted = 0;
        bool failed = false;
        u64 received = 0;
        std::atomic<bool> client_done{false};
    };
    void sending_peer(Conn* c)
    {
        u64 p = 0;
        while (p < c->total)
        {
            const u64 k = std::min(c->total - p, some_size(1, 3000));
            const std::string d = stream_data(c->id, p, k);
            {
                Quiet q;
                c->peer_sent = p + k;
            }
            if (sim::peer_send(c->peer, d.data(), k) < 0) return;
            p += k;
            if (sim::chance(Env, 0.2)) sim::sleep_ns(1000 + sim::decide(Env, 200000));
        }
        {
            Quiet q;
            c->peer_ended = true;
        }
        if (c->peer_end == 1)
            sim::peer_reset(c->peer);
        else if (c->peer_end == 0)
            sim::peer_close(c->peer);
    }
    DetachedTask reading_client(Conn* c)
    {
        Frame f;
        co_await SwitchToWorker(*c->w);
        u64 pos = 0;
        for (u64 k = 0; k < 60; ++k)
        {
            const u64 n = wc(0.05) ? 0 : some_size(1, c->max_chunk);
            std::string b = canaried(n);
            const u64 mark = sim::op_log_size();
            const u64 obj = sim::fd_object(c->fd);
            if (wc(0.7))
            {
                auto r = co_await c->w->async_read_exact(c->fd, std::span<char>(b.data() + 16, n));
                SIM_CHECK(c->w->is_on_worker_thread(), "exact:wrong-thread", "resumed elsewhere");
                check_canary(b, n);
                if (r)
                {
                    if (n)
                    {
                        Quiet q;
                        SIM_CHECK(pos + n <= c->peer_sent, "exact:short", "an exact read of %llu bytes succeeded with only %llu in the stream", (unsigned long long)n, (unsigned long long)(c->peer_sent - pos));
                    }
                    check_stream(c->id, pos, b.data() + 16, n, "exact:data", "exact read");
                    pos += n;
                }
                else
                {
                    Quiet q;
                    const int e = r.error().value;
                    if (e == kio::kIoEof)
                    {
                        SIM_CHECK(c->peer_ended && pos + n > c->total, "exact:eof", "end of file reported at %llu of %llu bytes for a read of %llu", (unsigned long long)pos, (unsigned long long)c->total, (unsigned long long)n);
                        SIM_CHECK(r.error().category == kio::ErrorCategory::File, "exact:cause", "end of file has the wrong category");
                    }
                    else
                        SIM_CHECK(last_result_is(mark, c->fd, obj, e), "exact:cause", "the error %d is not what the kernel reported", e);
                    sim::probe("exact read failed");
                    break;
                }
            }
            else
            {
                auto r = co_await c->w->async_read(c->fd, std::span<char>(b.data() + 16, n));
                check_canary(b, n);
                if (r)
                {
                    SIM_CHECK(*r >= 0 && u64(*r) <= n, "exact:count", "%d bytes read into a buffer of %llu", *r, (unsigned long long)n);
                    check_stream(c->id, pos, b.data() + 16, u64(*r), "exact:data", "read");
                    check_untouched(b, u64(*r), n);
                    pos += u64(*r);
                    if (*r == 0 && n)
                    {
                        Quiet q;
                        SIM_CHECK(c->peer_ended && pos == c->total, "exact:eof", "end of file reported at %llu of %llu bytes", (unsigned long long)pos, (unsigned long long)c->total);
                        break;
                    }
                }
                else
                {
                    SIM_CHECK(last_result_is(mark, c->fd, obj, r.error().value), "exact:cause", "the error %d is not what the kernel reported", r.error().value);
                    break;
                }
            }
        }
        co_await c->w->async_close(c->fd);
        Quiet q;
        c->finished = true;
        c->tot->done++;
    }
    void receiving_peer(Conn* c)
    {
        char b[700];
        u64 limit = c->peer_end == 1 ? c->total : ~0ull;
        for (;;)
        {
            if (c->received >= limit)
            {
                sim::peer_reset(c->peer);
                return;
            }
            const long r = sim::peer_recv(c->peer, b, 1 + size_t(sim::decide(Env, sizeof b)), 0);
            if (r <= 0) return;
            check_stream(c->id, c->received, b, u64(r), "exact:data", "written data at the peer");
            {
                Quiet q;
                c->received += u64(r);
                SIM_CHECK(c->received <= c->attempted, "exact:data", "the peer received more than was written");
            }
            if (sim::chance(Env, 0.1)) sim::sleep_ns(1000 + sim::decide(Env, 300000));
        }
    }
    DetachedTask writing_client(Conn* c)
    {
        Frame f;
        co_await SwitchToWorker(*c->w);
        u64 pos = 0;
        const u64 ops = wr(1, 20);
        for (u64 k = 0; k < ops; ++k)
        {
            const u64 n = wc(0.05) ? 0 : some_size(1, c->max_chunk);
            std::string d = stream_data(c->id, pos, n);
            const u64 mark = sim::op_log_size();
            const u64 obj = sim::fd_object(c->fd);
            {
                Quiet q;
                c->attempted = pos + n;
            }
            if (wc(0.7))
            {
                auto r = co_await c->w->async_write_exact(c->fd, std::span<const char>(d.data(), n));
                if (!r)
                {
                    SIM_CHECK(last_result_is(mark, c->fd, obj, r.error().value), "exact:cause", "the error %d is not what the kernel reported", r.error().value);
                    Quiet q;
                    c->failed = true;
                    sim::probe("exact write failed");
                    break;
                }
                pos += n;
            }
            else
            {
                auto r = co_await c->w->async_write(c->fd, std::span<const char>(d.data(), n));
                if (!r)
                {
                    SIM_CHECK(last_result_is(mark, c->fd, obj, r.error().value), "exact:cause", "the error %d is not what the kernel reported", r.error().value);
                    Quiet q;
                    c->failed = true;
                    break;
                }
                SIM_CHECK(*r >= 0 && u64(*r) <= n && (*r > 0 || n == 0), "exact:count", "%d bytes of %llu written", *r, (unsigned long long)n);
                pos += u64(*r);
                Quiet q;
                c->attempted = pos;
            }
            Quiet q;
            c->written = pos;
        }
        co_await c->w->async_close(c->fd);
        Quiet q;
        c->finished = true;
        c->tot->done++;
    }

    // ---- files -----------------------------------------------------------------------------------------------------
    // Offsets around and beyond 2 and 4 GiB: the files are sparse.
    u64 some_base()
    {
        if (!wc(0.2)) return 0;
        static const u64 b[] = {1ull << 31, 1ull << 32, 1ull << 33, 5ull << 30, 1ull << 36};
        const u64 x = b[wr(0, 4)];
        return wc(0.5) ? x - wr(0, 300) : x + wr(0, 300);
    }
    void write_at(const std::string& path, u64 base, const std::string& d)
    {
        const int fd = ::open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (fd < 0) sim::sim_error("open");
        u64 n = 0;
        while (n < d.size())
        {
            const long r = ::pwrite(fd, d.data() + n, d.size() - n, off_t(base + n));
            if (r <= 0 && errno != EINTR) sim::sim_error("pwrite");
            if (r > 0) n += u64(r);
        }
        ::close(fd);
    }
    std::string read_from(const std::string& path, u64 base)
    {
        std::string s;
        const int fd = ::open(path.c_str(), O_RDONLY);
        if (fd < 0) return "?";
        char b[4096];
        for (;;)
        {
            const long r = ::pread(fd, b, sizeof b, off_t(base + s.size()));
            if (r <= 0) break;
            s.append(b, size_t(r));
        }
        ::close(fd);
        return s;
    }
    struct FileJob
    {
        u64 id;
        Worker* w;
        Tot* tot;
        int fd = -1;
        std::string path;
        u64 base = 0;                 // the file begins with a hole of this size
        std::string model;
        std::vector<bool> unsure;     // bytes of failed writes
        std::string alt;
        bool finished = false;
    };
    DetachedTask file_client(FileJob* c, u64 maxn)
    {
        Frame f;
        co_await SwitchToWorker(*c->w);
        const u64 ops = wr(1, 14);
        for (u64 k = 0; k < ops; ++k)
        {
            const u64 n = wc(0.05) ? 0 : some_size(1, maxn);
            const u64 off = wc(0.5) ? wr(0, 64) : wr(0, c->model.size() + 40);
            const u64 mark = sim::op_log_size();
            const u64 obj = sim::fd_object(c->fd);
            if (wc(0.55))
            {
                std::string b = canaried(n);
                const bool exact = wc(0.8);
                i64 got = -1;
                int err = 0;
                if (exact)
                {
                    auto r = co_await c->w->async_read_exact_at(c->fd, std::span<char>(b.data() + 16, n), c->base + off);
                    if (r) got = i64(n);
                    else err = r.error().value;
                }
                else
                {
                    auto r = co_await c->w->async_read_at(c->fd, std::span<char>(b.data() + 16, n), c->base + off);
                    if (r) got = *r;
                    else err = r.error().value;
                }
                check_canary(b, n);
                if (got >= 0)
                {
                    Quiet q;
                    SIM_CHECK(u64(got) <= n, "exact:count", "read more than asked");
                    SIM_CHECK(got == 0 || off + u64(got) <= c->model.size(), "exact:short", "read of %llu bytes at %llu succeeded in a file of %zu bytes", (unsigned long long)n, (unsigned long long)off, c->model.size());
                    for (i64 i = 0; i < got; ++i)
                    {
                        const char x = b[16 + size_t(i)];
                        SIM_CHECK(x == c->model[off + size_t(i)] || (c->unsure[off + size_t(i)] && x == c->alt[off + size_t(i)]), "exact:data", "read byte %lld at %llu: not what the file holds", (long long)i, (unsigned long long)off);
                    }
                    for (u64 i = u64(got); i < n; ++i) SIM_CHECK(b[16 + i] == '\x6b', "exact:overrun", "bytes beyond the data transferred were changed");
                    if (!exact && got == 0 && n) SIM_CHECK(off >= c->model.size(), "exact:eof", "end of file inside the file");
                }
                else if (err == kio::kIoEof)
                    SIM_CHECK(exact && off + n > c->model.size(), "exact:eof", "end of file reported for %llu bytes at %llu of a file of %zu bytes", (unsigned long long)n, (unsigned long long)off, c->model.size());
                else
                    SIM_CHECK(last_result_is(mark, c->fd, obj, err), "exact:cause", "the error %d is not what the kernel reported", err);
            }
            else
            {
                std::string d = stream_data(c->id * 100 + k, 0, n);
                const bool exact = wc(0.8);
                i64 put = -1;
                int err = 0;
                if (exact)
                {
                    auto r = co_await c->w->async_write_exact_at(c->fd, std::span<const char>(d.data(), n), c->base + off);
                    if (r) put = i64(n);
                    else err = r.error().value;
                }
                else
                {
                    auto r = co_await c->w->async_write_at(c->fd, std::span<const char>(d.data(), n), c->base + off);
                    if (r) put = *r;
                    else err = r.error().value;
                }
                if (put < 0) SIM_CHECK(last_result_is(mark, c->fd, obj, err), "exact:cause", "the error %d is not what the kernel reported", err);
                Quiet q;
                const u64 upto = put >= 0 ? u64(put) : n;
                if (put < 0)
                {
                    // any prefix may have been written: look
                    sim::faults_enabled(false);
                    const std::string now = read_from(c->path, c->base);
                    sim::faults_enabled(true);
                    SIM_CHECK(now.size() <= std::max<u64>(c->model.size(), off + n), "exact:overrun", "the file grew beyond the range written");
                    std::string m = c->model;
                    if (now.size() > m.size()) m.resize(now.size(), '\0');
                    u64 w = 0;
                    while (w < n && off + w < now.size() && now[off + w] == d[w]) ++w;
                    for (u64 i = 0; i < now.size(); ++i) SIM_CHECK(now[i] == m[i] || (i >= off && i < off + w), "exact:data", "a failed write changed byte %llu outside the range it wrote", (unsigned long long)i);
                    c->model = now;
                    c->unsure.assign(c->model.size(), false);
                    c->alt = c->model;
                }
                else if (upto)
                {
                    if (c->model.size() < off + upto)
                    {
                        c->model.resize(off + upto, '\0');
                        c->unsure.resize(off + upto, false);
                        c->alt.resize(off + upto, '\0');
                    }
                    memcpy(c->model.data() + off, d.data(), upto);
                }
            }
        }
        Quiet q;
        c->finished = true;
        c->tot->done++;
    }
}  // namespace

SIM_SCENARIO(exact_io)
{
    setup(0.03);
    LeakCheck leak;
    const u64 nw = wr(1, 2);
    WorkerConfig cfg;
    cfg.task_queue_capacity = 64;
    cfg.uring_queue_depth = 64;
    cfg.default_op_slots = 64;
    auto* pool = new IOPool(nw, cfg);
    const u64 max_chunk = sim::knobs().sock_buf >= 4096 ? 20000 : 800;
    Tot tot;
    std::vector<std::unique_ptr<Conn>> cs;
    std::vector<std::unique_ptr<FileJob>> fs;
    const u64 nc = wr(0, 3), nf = wr(nc ? 0 : 1, 3);
    const int lst = sim::peer_listen(700);
    for (u64 i = 0; i < nc; ++i)
    {
        auto c = std::make_unique<Conn>();
        c->id = i + 1;
        c->w = pool->get_worker(wr(0, nw - 1));
        c->tot = &tot;
        c->max_chunk = max_chunk;
        c->fd = connect_plain(700);
        if (c->fd < 0) sim::sim_error("connect");
        c->peer = sim::peer_accept(lst);
        c->total = some_size(0, max_chunk * 2);
        c->peer_end = wc(0.25) ? 1 : 0;
        cs.push_back(std::move(c));
    }
    for (u64 i = 0; i < nf; ++i)
    {
        auto c = std::make_unique<FileJob>();
        c->id = 50 + i;
        c->w = pool->get_worker(wr(0, nw - 1));
        c->tot = &tot;
        c->path = "x" + std::to_string(i);
        c->model = stream_data(c->id, 0, some_size(0, 5000));
        c->alt = c->model;
        c->unsure.assign(c->model.size(), false);
        c->base = some_base();
        write_at(c->path, c->base, c->model);
        c->fd = ::open(c->path.c_str(), O_RDWR);
        fs.push_back(std::move(c));
    }
    // faults from here on
    sim::set_fault(sim::F_Fragment, sim::chance(Conf, 0.6) ? 0.4 : 0);
    sim::set_fault(sim::F_ShortRead, sim::chance(Conf, 0.6) ? 0.5 : 0);
    sim::set_fault(sim::F_ShortWrite, sim::chance(Conf, 0.6) ? 0.5 : 0);
    if (sim::chance(Conf, 0.25)) sim::set_fault(sim::F_Eio, 0.05);
    if (sim::chance(Conf, 0.25)) sim::set_fault(sim::F_Enospc, 0.05);
    if (sim::chance(Conf, 0.2)) sim::set_fault(sim::F_Eintr, 0.05);
    if (sim::chance(Conf, 0.2)) sim::set_fault(sim::F_ConnReset, 0.05);
    if (sim::chance(Conf, 0.2)) sim::set_fault(sim::F_PeerSlow, 0.2);
    if (sim::chance(Conf, 0.2)) sim::set_fault(sim::F_PartialSubmit, 0.2);
    std::vector<bool> reads;
    for (auto& c: cs)
    {
        const bool rd = wc(0.5);
        reads.push_back(rd);
        Conn* p = c.get();
        if (rd)
        {
            c->thread = std::thread([p] { sending_peer(p); });
            reading_client(p).detach();
        }
        else
        {
            c->thread = std::thread([p] { receiving_peer(p); });
            writing_client(p).detach();
        }
    }
    for (auto& c: fs) file_client(c.get(), 3000).detach();
    for (auto& c: cs) c->thread.join();
    sim::settle(100 * sec);
    {
        Quiet q;
        for (auto& c: cs) SIM_CHECK(c->finished, "exact:hang", "a transfer never ended");
        for (auto& c: fs) SIM_CHECK(c->finished, "exact:hang", "a transfer never ended");
        for (u64 i = 0; i < cs.size(); ++i)
            if (!reads[i] && !cs[i]->failed && cs[i]->peer_end != 1)
                SIM_CHECK(cs[i]->received == cs[i]->written, "exact:lost", "the peer received %llu of %llu bytes written", (unsigned long long)cs[i]->received, (unsigned long long)cs[i]->written);
        sim::note_nontrivial();
    }
    sim::faults_enabled(false);
    for (auto& c: fs)
    {
        ::close(c->fd);
        const std::string now = read_from(c->path, c->base);
        SIM_CHECK(now == c->model, "exact:data", "the file differs from what was written");
    }
    delete pool;
    Quiet q;
    SIM_CHECK(Frame::live == 0, "exact:frame-leak", "%lld frames leaked", (long long)Frame::live);
}

// ---- sendfile ------------------------------------------------------------------------------------------------------
namespace
{
    struct Send
    {
        u64 id;
        Worker* w;
        Tot* tot;
        u64 src_size;
        u64 base = 0;        // the source begins with a hole of this size
        std::string src;
        int kind;            // 0 socket, 1 pipe, 2 file
        int out = -1, in = -1;
        int peer = -1, pr = -1;
        u64 reset_at = ~0ull;
        u64 received = 0;
        // oracle: what has been asked for so far, in order
        std::vector<std::pair<u64, u64>> segs;
        u64 acked = 0, asked = 0;
        bool failed = false, finished = false;
        bool clean = true;   // nothing fails in this run
        std::thread thread;
    };
    void check_segs(Send* c, const char* b, u64 n)
    {
        // byte i of the destination is the i-th byte of the concatenated segments
        Quiet q;
        for (u64 i = 0; i < n; ++i)
        {
            u64 p = c->received + i;
            bool ok = false;
            for (auto& [o, l]: c->segs)
            {
                if (p < l)
                {
                    SIM_CHECK(b[i] == stream_byte(c->id, o + p), "sendfile:data", "byte %llu at the destination is not the byte of the source that belongs there", (unsigned long long)(c->received + i));
                    ok = true;
                    break;
                }
                p -= l;
            }
            SIM_CHECK(ok, "sendfile:data", "the destination received more than was asked for");
        }
        c->received += n;
    }
    void sendfile_peer(Send* c)
    {
        char b[3000];
        for (;;)
        {
            long r;
            if (c->kind == 0)
            {
                if (c->received >= c->reset_at)
                {
                    sim::peer_reset(c->peer);
                    return;
                }
                r = sim::peer_recv(c->peer, b, 1 + size_t(sim::decide(Env, sizeof b)), 0);
            }
            else
                r = ::read(c->pr, b, 1 + size_t(sim::decide(Env, sizeof b)));
            if (r < 0 && c->kind == 1 && errno == EINTR) continue;
            if (r <= 0) return;
            check_segs(c, b, u64(r));
            if (sim::chance(Env, 0.1)) sim::sleep_ns(1000 + sim::decide(Env, 300000));
        }
    }
    DetachedTask sender(Send* c, u64 maxn)
    {
        Frame f;
        co_await SwitchToWorker(*c->w);
        const u64 ops = wr(1, 4);
        for (u64 k = 0; k < ops; ++k)
        {
            u64 off = wr(0, 3) ? wr(0, c->src_size) : 0;
            u64 n = wc(0.05) ? 0 : some_size(1, maxn);
            if (wc(0.8) && off + n > c->src_size) n = c->src_size - off;
            {
                Quiet q;
                c->segs.emplace_back(off, std::min(n, c->src_size - off));
                c->asked += n;
            }
            auto r = co_await c->w->async_sendfile(c->out, c->in, off_t(c->base + off), n);
            SIM_CHECK(c->w->is_on_worker_thread(), "sendfile:wrong-thread", "resumed elsewhere");
            Quiet q;
            if (r)
            {
                SIM_CHECK(off + n <= c->src_size, "sendfile:short", "reported success for %llu bytes at %llu of a source of %llu bytes", (unsigned long long)n, (unsigned long long)off, (unsigned long long)c->src_size);
                c->acked += n;
                sim::note_nontrivial();
            }
            else
            {
                if (off + n <= c->src_size && !r.error().value) sim::violation("sendfile:cause", "failed without a cause");
                SIM_CHECK(!c->clean || c->reset_at != ~0ull || off + n > c->src_size, "sendfile:cause", "failed with error %d, nothing was wrong", r.error().value);
                c->failed = true;
                sim::probe("sendfile failed");
                break;
            }
        }
        if (c->out >= 0) ::close(c->out);
        Quiet q;
        c->finished = true;
        c->tot->done++;
    }
}  // namespace

SIM_SCENARIO(sendfile)
{
    setup(0.03);
    LeakCheck leak;
    const u64 nw = wr(1, 2);
    WorkerConfig cfg;
    cfg.task_queue_capacity = 64;
    cfg.uring_queue_depth = 64;
    cfg.default_op_slots = 64;
    auto* pool = new IOPool(nw, cfg);
    const u64 maxn = sim::knobs().sock_buf >= 4096 ? 200000 : 3000;
    Tot tot;
    std::vector<std::unique_ptr<Send>> cs;
    const u64 nc = wr(1, 3);
    const int lst = sim::peer_listen(700);
    const int before = sim::open_fds();
    for (u64 i = 0; i < nc; ++i)
    {
        auto c = std::make_unique<Send>();
        c->id = i + 1;
        c->w = pool->get_worker(wr(0, nw - 1));
        c->tot = &tot;
        c->kind = int(wr(0, 2));
        c->src_size = some_size(0, maxn);
        c->src = stream_data(c->id, 0, c->src_size);
        const std::string p = "s" + std::to_string(i);
        c->base = some_base();
        write_at(p, c->base, c->src);
        c->in = ::open(p.c_str(), O_RDONLY);
        if (c->kind == 0)
        {
            c->out = connect_plain(700);
            if (c->out < 0) sim::sim_error("connect");
            c->peer = sim::peer_accept(lst);
            if (wc(0.2)) c->reset_at = wr(0, c->src_size + 1);
        }
        else if (c->kind == 1)
        {
            int pp[2];
            if (::pipe(pp) != 0) sim::sim_error("pipe");
            c->pr = pp[0];
            c->out = pp[1];
        }
        else
            c->out = ::open((p + ".out").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        // the sockets which create_tcp_fd() makes do not block
        if (c->kind != 2 && wc(0.5)) ::fcntl(c->out, F_SETFL, O_NONBLOCK);
        cs.push_back(std::move(c));
    }
    sim::set_fault(sim::F_SpliceShort, sim::chance(Conf, 0.7) ? 0.5 : 0);
    sim::set_fault(sim::F_Fragment, sim::chance(Conf, 0.4) ? 0.4 : 0);
    sim::set_fault(sim::F_ShortRead, sim::chance(Conf, 0.4) ? 0.5 : 0);
    sim::set_fault(sim::F_ShortWrite, sim::chance(Conf, 0.4) ? 0.5 : 0);
    bool clean = true;
    auto nasty = [&](sim::Fault f, double p) {
        if (!sim::chance(Conf, 0.2)) return;
        sim::set_fault(f, p);
        clean = false;
    };
    nasty(sim::F_Eio, 0.05);
    nasty(sim::F_Enospc, 0.05);
    nasty(sim::F_ConnReset, 0.05);
    nasty(sim::F_Emfile, 0.2);
    nasty(sim::F_Eintr, 0.05);
    for (auto& c: cs)
    {
        Send* p = c.get();
        c->clean = clean;
        if (c->kind != 2) c->thread = std::thread([p] { sendfile_peer(p); });
        sender(p, maxn).detach();
    }
    for (auto& c: cs)
        if (c->thread.joinable()) c->thread.join();
    sim::settle(100 * sec);
    sim::faults_enabled(false);
    {
        for (auto& c: cs)
        {
            {
                Quiet q;
                SIM_CHECK(c->finished, "sendfile:hang", "a transfer never ended");
            }
            if (c->kind == 2)
            {
                const std::string s = read_file("s" + std::to_string(c->id - 1) + ".out");
                check_segs(c.get(), s.data(), s.size());
            }
            Quiet q;
            if (c->reset_at == ~0ull || c->kind != 0)
                if (!c->failed) SIM_CHECK(c->received == c->acked, "sendfile:lost", "the destination received %llu of %llu bytes reported as sent", (unsigned long long)c->received, (unsigned long long)c->acked);
            SIM_CHECK(c->received <= c->asked, "sendfile:data", "the destination received more than was asked for");
        }
        for (auto& c: cs)
        {
            ::close(c->in);
            if (c->pr >= 0) ::close(c->pr);
        }
        SIM_CHECK(sim::open_fds() == before, "sendfile:fd-leak", "%d descriptors leaked", sim::open_fds() - before);
    }
    delete pool;
    Quiet q;
    SIM_CHECK(Frame::live == 0, "sendfile:frame-leak", "%lld frames leaked", (long long)Frame::live);
}
