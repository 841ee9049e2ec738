// C09: worker statistics and scraping.
#include "net_common.h"

#include "kio/core/metrics_collector.h"
#include "kio/metrics/registry.h"
#include "kio/sync/sync_wait.h"

#include <sys/uio.h>

using namespace scen;

namespace
{
    // What the successful operations of one worker add up to, written on the worker right after each operation.
    struct Sum
    {
        u64 v[7] = {};   // bytes read, bytes written, reads, writes, accepts, connects, opens
        // operations under way that count several steps before they return
        u64 loose = 0;
        u64 clients = 0;
    };
    constexpr int kBytesR = 0, kBytesW = 1, kReads = 2, kWrites = 3, kAccepts = 4, kConnects = 5, kOpens = 6;
    const char* const kNames[9] = {"kio_worker_bytes_read_total", "kio_worker_bytes_written_total", "kio_worker_read_ops_total", "kio_worker_write_ops_total", "kio_worker_connections_accepted_total",
                                   "kio_worker_connect_ops_total", "kio_worker_open_ops_total", "kio_worker_active_coroutines", "kio_worker_io_errors_total"};
    struct Ctx
    {
        IOPool* pool;
        u64 nw;
        std::vector<Sum> sums;
        u64 finished = 0;
        int lst_fd = -1;
        std::atomic<bool> done{false};
        u64 scale = 1;
    };
    struct Client
    {
        Ctx* ctx;
        u64 id, w, ops;
        int rd = -1, wr = -1;   // a socket whose peer sends, and one whose peer receives
        u64 wpeer_total = 0;
    };
    void add(Client* c, int what, u64 n)
    {
        Quiet q;
        c->ctx->sums[c->w].v[what] += n;
    }
    void loose(Client* c, i64 d)
    {
        Quiet q;
        c->ctx->sums[c->w].loose = u64(i64(c->ctx->sums[c->w].loose) + d);
    }
    std::array<u64, 7> flat(const kio::io::WorkerStats& s)
    {
        return {s.bytes_read_total, s.bytes_written_total, s.read_ops_total, s.write_ops_total, s.connections_accepted_total, s.connect_ops_total, s.open_ops_total};
    }
    void check_equal(const kio::io::WorkerStats& s, const Sum& m, const char* when)
    {
        Quiet q;
        const auto f = flat(s);
        for (int i = 0; i < 7; ++i) SIM_CHECK(f[size_t(i)] == m.v[i], "stats:total", "%s: %s is %llu, the operations done add up to %llu", when, kNames[i], (unsigned long long)f[size_t(i)], (unsigned long long)m.v[i]);
    }
    DetachedTask client(Client* c)
    {
        Frame f;
        Worker& w = *c->ctx->pool->get_worker(c->w);
        co_await SwitchToWorker(w);
        const std::string path = "f" + std::to_string(c->id);
        int fd = -1;
        u64 size = 0;
        const u64 sc = c->ctx->scale;
        for (u64 k = 0; k < c->ops; ++k)
        {
            std::string b(wr(1, 300) * sc, char('a' + k % 26));
            switch (wr(0, 13))
            {
                case 0:
                {
                    if (fd >= 0)
                    {
                        (void)co_await w.async_close(fd);
                        fd = -1;
                    }
                    auto r = co_await w.async_openat(wc(0.15) ? "no/such" : path, O_RDWR | O_CREAT, 0644);
                    if (r)
                    {
                        fd = *r;
                        add(c, kOpens, 1);
                    }
                    break;
                }
                case 1:
                case 2:
                {
                    auto r = co_await w.async_write_at(fd, std::span<const char>(b), wr(0, size));
                    if (r)
                    {
                        size += u64(*r);
                        add(c, kBytesW, u64(*r));
                        add(c, kWrites, 1);
                    }
                    break;
                }
                case 3:
                case 4:
                {
                    auto r = co_await w.async_read_at(fd, std::span<char>(b), wr(0, size));
                    if (r)
                    {
                        add(c, kBytesR, u64(*r));
                        add(c, kReads, 1);
                    }
                    break;
                }
                case 5:
                {
                    iovec v[2] = {{b.data(), b.size() / 2}, {b.data() + b.size() / 2, b.size() - b.size() / 2}};
                    if (wc(0.5))
                    {
                        auto r = co_await w.async_writev(fd, v, 2, wr(0, size));
                        if (r)
                        {
                            add(c, kBytesW, u64(*r));
                            add(c, kWrites, 1);
                        }
                    }
                    else
                    {
                        auto r = co_await w.async_readv(fd, v, 2, wr(0, size));
                        if (r)
                        {
                            add(c, kBytesR, u64(*r));
                            add(c, kReads, 1);
                        }
                    }
                    break;
                }
                case 6:
                {
                    // whole transfers: each step counts as an operation; their number is what the kernel saw
                    loose(c, 1);
                    const u64 mark = sim::op_log_size();
                    const bool rd = wc(0.5);
                    if (rd)
                        (void)co_await w.async_read_exact_at(fd, std::span<char>(b), wr(0, size));
                    else
                        (void)co_await w.async_write_exact_at(fd, std::span<const char>(b), wr(0, size));
                    {
                        Quiet q;
                        for (u64 i = mark; i < sim::op_log_size(); ++i)
                        {
                            const auto& r = sim::op_log(i);
                            if (r.user_data == ~0ull || r.addr < u64(b.data()) || r.addr >= u64(b.data()) + b.size() || r.state != 2 || r.res < 0) continue;
                            c->ctx->sums[c->w].v[rd ? kBytesR : kBytesW] += u64(r.res);
                            c->ctx->sums[c->w].v[rd ? kReads : kWrites]++;
                        }
                    }
                    loose(c, -1);
                    break;
                }
                case 7:
                {
                    auto r = co_await w.async_read(c->rd, std::span<char>(b));
                    if (r)
                    {
                        add(c, kBytesR, u64(*r));
                        add(c, kReads, 1);
                    }
                    break;
                }
                case 8:
                {
                    auto r = co_await w.async_write(c->wr, std::span<const char>(b));
                    if (r)
                    {
                        add(c, kBytesW, u64(*r));
                        add(c, kWrites, 1);
                    }
                    break;
                }
                case 9:
                {
                    iovec v{b.data(), b.size()};
                    msghdr m{};
                    m.msg_iov = &v;
                    m.msg_iovlen = 1;
                    const u64 mark = sim::op_log_size();
                    auto r = co_await w.async_sendmsg(c->wr, &m, MSG_NOSIGNAL);
                    if (r)
                    {
                        Quiet q;
                        u64 n = 0;
                        for (u64 i = mark; i < sim::op_log_size(); ++i)
                            if (sim::op_log(i).user_data != ~0ull && sim::op_log(i).addr == u64(&m)) n = u64(sim::op_log(i).res);
                        c->ctx->sums[c->w].v[kBytesW] += n;
                        c->ctx->sums[c->w].v[kWrites]++;
                    }
                    break;
                }
                case 10:
                {
                    const int s = ::socket(AF_INET, SOCK_STREAM, 0);
                    if (s < 0) break;
                    sockaddr_in a = loopback(wc(0.3) ? 799 : 700);
                    auto r = co_await w.async_connect(s, (const sockaddr*)&a, sizeof a);
                    if (r) add(c, kConnects, 1);
                    ::close(s);
                    break;
                }
                case 11:
                {
                    // not counted anywhere
                    (void)co_await w.async_fsync(fd);
                    (void)co_await w.async_sleep(std::chrono::microseconds(wr(0, 200)));
                    break;
                }
                case 12:
                {
                    if (fd < 0 || c->wr < 0 || !size) break;
                    // what arrived counts even if the file ends too early
                    const u64 n = wc(0.5) ? wr(1, b.size()) : b.size() + wr(1, 3000);
                    loose(c, 1);
                    write_file(path + "s", b);
                    const int src = ::open((path + "s").c_str(), O_RDONLY);
                    auto r = co_await w.async_sendfile(c->wr, src, 0, n);
                    SIM_CHECK(r.has_value() == (n <= b.size()), "stats:sendfile", "sending %llu bytes of a file of %llu %s", (unsigned long long)n, (unsigned long long)b.size(), r ? "succeeded" : "failed");
                    add(c, kBytesW, std::min<u64>(n, b.size()));
                    if (r) add(c, kWrites, 1);
                    loose(c, -1);
                    ::close(src);
                    break;
                }
                default:
                {
                    // a look from the worker itself
                    Sum m;
                    const auto s = w.get_stats();
                    {
                        Quiet q;
                        m = c->ctx->sums[c->w];
                    }
                    if (!m.loose) check_equal(s, m, "seen on the worker");
                    SIM_CHECK(s.active_coroutines <= m.clients + 1, "stats:gauge", "%llu operations in flight reported with %llu clients", (unsigned long long)s.active_coroutines, (unsigned long long)m.clients);
                    break;
                }
            }
        }
        if (fd >= 0) (void)co_await w.async_close(fd);
        ::close(c->rd);
        ::close(c->wr);
        Quiet q;
        c->ctx->finished++;
        c->ctx->sums[c->w].clients--;
    }
    DetachedTask acceptor(Ctx* ctx, u64 wi)
    {
        Frame f;
        Worker& w = *ctx->pool->get_worker(wi);
        co_await SwitchToWorker(w);
        for (;;)
        {
            sockaddr_storage a{};
            socklen_t al = sizeof a;
            auto r = co_await w.async_accept(ctx->lst_fd, (sockaddr*)&a, &al);
            if (!r)
            {
                if (r.error().value == EINVAL || r.error().value == EBADF) break;   // shut down
                continue;
            }
            {
                Quiet q;
                ctx->sums[wi].v[kAccepts]++;
            }
            ::close(*r);
        }
        Quiet q;
        ctx->sums[wi].clients--;
    }
    double value_of(const kio::MetricSnapshot& s, const char* name, u64 id)
    {
        Quiet q;
        const std::string ids = std::to_string(id);
        for (const auto& fam: s.GetFamilies())
            if (fam.name == name)
                for (const auto& x: fam.samples)
                    if (auto it = x.labels.find("worker_id"); it != x.labels.end() && it->second == ids) return x.value;
        sim::violation("stats:missing", "a scrape holds no %s of worker %llu", name, (unsigned long long)id);
    }
    double value_in_text(const std::string& t, const char* name, u64 id)
    {
        Quiet q;
        const std::string key = std::string("\n") + name + "{worker_id=\"" + std::to_string(id) + "\"} ";
        const size_t p = t.find(key);
        if (p == std::string::npos) sim::violation("stats:missing", "the metrics page holds no %s of worker %llu", name, (unsigned long long)id);
        return std::strtod(t.c_str() + p + key.size(), nullptr);
    }
    struct Last
    {
        std::vector<std::array<double, 9>> v;
    };
    void scrape(Ctx* ctx, Last* last, bool text, bool idle)
    {
        std::vector<Sum> lo;
        {
            Quiet q;
            lo = ctx->sums;
        }
        std::vector<std::array<double, 9>> got(ctx->nw);
        if (text)
        {
            const std::string t = kio::MetricsRegistry<>::Instance().Scrape();
            for (u64 w = 0; w < ctx->nw; ++w)
                for (size_t i = 0; i < 9; ++i) got[w][i] = value_in_text(t, kNames[i], w);
        }
        else
            for (u64 w = 0; w < ctx->nw; ++w)
            {
                kio::MetricSnapshot s;
                kio::io::WorkerMetricsCollector col(*ctx->pool->get_worker(w));
                col.Collect(s);
                for (size_t i = 0; i < 9; ++i) got[w][i] = value_of(s, kNames[i], w);
            }
        Quiet q;
        for (u64 w = 0; w < ctx->nw; ++w)
        {
            const Sum& hi = ctx->sums[w];
            for (size_t i = 0; i < 7; ++i)
            {
                const double g = got[w][i];
                SIM_CHECK(g >= double(lo[w].v[i]), "stats:scrape", "a scrape shows %s %.0f, %llu had been done before it", kNames[i], g, (unsigned long long)lo[w].v[i]);
                if (!hi.loose && !lo[w].loose) SIM_CHECK(g <= double(hi.v[i]), "stats:scrape", "a scrape shows %s %.0f, only %llu have been done", kNames[i], g, (unsigned long long)hi.v[i]);
                if (idle) SIM_CHECK(g == double(hi.v[i]), "stats:total", "an idle worker reports %s %.0f, the operations done add up to %llu", kNames[i], g, (unsigned long long)hi.v[i]);
                if (!last->v.empty()) SIM_CHECK(g >= last->v[w][i], "stats:decreased", "%s fell from %.0f to %.0f", kNames[i], last->v[w][i], g);
            }
            SIM_CHECK(got[w][7] >= 0 && got[w][7] <= double(lo[w].clients) + 1, "stats:gauge", "%.0f operations in flight reported with %llu clients", got[w][7], (unsigned long long)lo[w].clients);
            if (idle) SIM_CHECK(got[w][7] == 0, "stats:gauge", "an idle worker reports %.0f operations in flight", got[w][7]);
            if (!last->v.empty()) SIM_CHECK(got[w][8] >= last->v[w][8], "stats:decreased", "the error counter fell");
        }
        last->v = got;
        sim::note_nontrivial();
    }
}  // namespace

SIM_SCENARIO(stats)
{
    setup(0.03);
    Ctx ctx;
    ctx.nw = wr(1, 2);
    WorkerConfig cfg;
    cfg.task_queue_capacity = 64;
    cfg.uring_queue_depth = 64;
    cfg.default_op_slots = wc(0.3) ? wr(1, 4) : 64;
    ctx.pool = new IOPool(ctx.nw, cfg);
    ctx.sums.resize(ctx.nw);
    static const u64 scales[] = {1, 1, 1, 1, 10, 10, 10, 1000};
    ctx.scale = scales[wr(0, 7)];
    sim::knobs().sock_buf = std::max<size_t>(sim::knobs().sock_buf, 4096);
    for (u64 w = 0; w < ctx.nw; ++w) kio::MetricsRegistry<>::Instance().Register(std::make_shared<kio::io::WorkerMetricsCollector>(*ctx.pool->get_worker(w)));
    // a listener for connects and accepts, and one for the clients' sockets
    ctx.lst_fd = ::socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a = loopback(700);
    if (::bind(ctx.lst_fd, (sockaddr*)&a, sizeof a) != 0 || ::listen(ctx.lst_fd, 128) != 0) sim::sim_error("listen");
    const int lst = sim::peer_listen(701);
    std::vector<std::unique_ptr<Client>> cs;
    std::vector<std::thread> th;
    std::vector<int> peers;
    const u64 n = wr(1, 4);
    for (u64 i = 0; i < n; ++i)
    {
        auto c = std::make_unique<Client>();
        c->ctx = &ctx;
        c->id = i;
        c->w = wr(0, ctx.nw - 1);
        c->ops = wr(1, 30);
        c->rd = connect_plain(701);
        const int p1 = sim::peer_accept(lst);
        c->wr = connect_plain(701);
        const int p2 = sim::peer_accept(lst);
        ctx.sums[c->w].clients++;
        const std::string d = stream_data(i, 0, wr(0, 4000));
        peers.push_back(p1);
        th.emplace_back([p1, d] {
            sim::peer_send(p1, d.data(), d.size());
            sim::peer_shutdown_write(p1);
        });
        th.emplace_back([p2] {
            char b[4096];
            while (sim::peer_recv(p2, b, sizeof b, 0) > 0) {}
        });
        cs.push_back(std::move(c));
    }
    if (sim::chance(Conf, 0.4)) sim::set_fault(sim::F_ShortRead, 0.4);
    if (sim::chance(Conf, 0.4)) sim::set_fault(sim::F_ShortWrite, 0.4);
    if (sim::chance(Conf, 0.2)) sim::set_fault(sim::F_AcceptFail, 0.2);
    const u64 aw = wr(0, ctx.nw - 1);
    ctx.sums[aw].clients++;
    acceptor(&ctx, aw).detach();
    for (auto& c: cs) client(c.get()).detach();
    std::vector<std::thread> scrapers;
    for (u64 i = 0, k = wr(1, 2); i < k; ++i)
    {
        const u64 m = wr(1, 6);
        scrapers.emplace_back([&ctx, m] {
            Last last;
            for (u64 j = 0; j < m; ++j)
            {
                sim::sleep_ns(wr(1, 100000));
                scrape(&ctx, &last, wc(0.5), false);
            }
        });
    }
    for (auto& t: scrapers) t.join();
    for (auto& t: th) t.join();
    sim::settle(5 * sec);
    {
        Quiet q;
        SIM_CHECK(ctx.finished == n, "stats:hang", "a client never finished");
    }
    sim::faults_enabled(false);
    ::shutdown(ctx.lst_fd, SHUT_RDWR);
    sim::settle(2 * sec);
    {
        Last last;
        scrape(&ctx, &last, false, true);
        scrape(&ctx, &last, true, true);
    }
    delete ctx.pool;
    ::close(ctx.lst_fd);
    Quiet q;
    SIM_CHECK(Frame::live == 0, "stats:frame-leak", "%lld frames leaked", (long long)Frame::live);
}
