// C04: every awaited operation is performed once and gets its own result.
#include "net_common.h"

#include <fcntl.h>
#include <poll.h>
#include <sys/uio.h>
#include <unistd.h>

using namespace scen;

namespace
{
    struct Tot
    {
        u64 started[64] = {};   // by kernel opcode: calls that did not report a failure to start
        u64 clients_done = 0;
        u64 refused = 0, thrown = 0;
        u64 pending = 0;
    };
    constexpr int kOpRead = 22, kOpWrite = 23, kOpReadv = 1, kOpWritev = 2, kOpFsync = 3, kOpOpen = 18, kOpClose = 19, kOpPoll = 6, kOpTimeout = 11, kOpFalloc = 17, kOpUnlink = 36, kOpTrunc = 55, kOpSendmsg = 9;

    struct Client
    {
        Worker* w;
        Tot* tot;
        u64 id;
        u64 ops;
        bool in_op = false;
        Ticker* ticker;
        std::string model;       // content of the own file
        u64 pos = 0;             // its file position
        int fd = -1;
        int pr = -1, pw = -1;    // own pipe
        std::string piped;       // what is in the pipe, in order
        u64 piped_head = 0;
        int sk = -1, peer = -1;  // own connection
        std::string sent;        // what went into it
        u64 rcvd = 0;            // how much of stream `id` has been read from it
        u64 to_come = 0;         // how much the peer has sent
        u64 max_slots = 0;
        bool finished = false;
    };

    // What the kernel saw of one call: the records of the operation log made since `mark` that match.
    struct Seen
    {
        u64 n = 0;
        sim::OpRec last{};
    };
    Seen find(u64 mark, int opcode, u64 addr, int fd, u64 obj)
    {
        Quiet q;
        Seen s;
        for (u64 i = mark; i < sim::op_log_size(); ++i)
        {
            const auto& r = sim::op_log(i);
            if (r.user_data == ~0ull || r.opcode != opcode) continue;
            if (addr && r.addr != addr) continue;
            if (fd >= 0 && r.fd != fd) continue;
            if (fd >= 0 && r.obj != obj) continue;
            s.n++;
            s.last = r;
        }
        return s;
    }

    // Awaits one operation and checks how often and with what result the kernel performed it.
    // Returns its result (>= 0), -errno, or kNotStarted.
    constexpr i64 kNotStarted = INT64_MIN;
    template<class T>
    Task<i64> call(Client* c, Task<Result<T>> t, int opcode, u64 addr, int fd, u64 len, u64 off, bool check_args)
    {
        Frame f;
        const u64 mark = sim::op_log_size();
        const u64 obj = fd >= 0 ? sim::fd_object(fd) : 0;
        {
            Quiet q;
            SIM_CHECK(!c->in_op, "io:resumed-twice", "a client runs while its operation is pending");
            c->in_op = true;
            c->tot->pending++;
        }
        i64 r = kNotStarted;
        bool threw = false;
        try
        {
            auto res = co_await t;
            if (!res)
                r = -i64(res.error().value);
            else if constexpr (std::is_void_v<T>)
                r = 0;
            else
                r = *res;
            SIM_CHECK(r >= -4095, "io:result", "impossible result %lld", (long long)r);
            if (!res) SIM_CHECK(res.error().value > 0, "io:result", "an operation failed without an error");
            if (!res) SIM_CHECK(res.error() == kio::Error::from_errno(res.error().value), "io:result", "the error has the wrong category");
        }
        catch (const std::runtime_error&)
        {
            threw = true;
        }
        {
            Quiet q;
            SIM_CHECK(c->in_op, "io:resumed-twice", "an operation resumed its coroutine twice");
            c->in_op = false;
            c->tot->pending--;
        }
        SIM_CHECK(c->w->is_on_worker_thread(), "io:wrong-thread", "an operation resumed its coroutine on a thread that is not its worker's");
        const Seen s = find(mark, opcode, addr, fd, obj);
        if (threw || r == -EAGAIN)
        {
            if (addr == 0 && fd < 0)
            {
                Quiet q;
                (threw ? c->tot->thrown : c->tot->refused)++;
                co_return kNotStarted;
            }
            // EAGAIN is never injected for the descriptors used here: the submission queue was full
            SIM_CHECK(s.n == 0, "io:phantom", "an operation that reported it could not be started was performed (%llu times)", (unsigned long long)s.n);
            Quiet q;
            (threw ? c->tot->thrown : c->tot->refused)++;
            sim::probe(threw ? "slots exhausted" : "submission queue full");
            co_return kNotStarted;
        }
        if (addr == 0 && fd < 0)
        {
            // no argument tells which of the records is ours; the totals are compared at the end
            Quiet q;
            c->tot->started[opcode]++;
            co_return r;
        }
        SIM_CHECK(s.n == 1, "io:count", "an operation was submitted %llu times (opcode %d)", (unsigned long long)s.n, opcode);
        SIM_CHECK(s.last.state == 2, "io:early", "an operation resumed before the kernel completed it");
        i64 want = s.last.res;
        if (opcode == kOpTimeout && want == -ETIME) want = 0;
        if (std::is_void_v<T> && want > 0) want = 0;
        SIM_CHECK(r == want, "io:result", "operation %d on fd %d got the result %lld, its own is %lld", opcode, s.last.fd, (long long)r, (long long)want);
        if (check_args)
        {
            if (len != ~0ull) SIM_CHECK(s.last.len == len, "io:args", "length %llu became %llu", (unsigned long long)len, (unsigned long long)s.last.len);
            if (off != ~1ull) SIM_CHECK(s.last.off == off, "io:args", "offset %llu became %llu", (unsigned long long)off, (unsigned long long)s.last.off);
        }
        {
            Quiet q;
            c->tot->started[opcode]++;
        }
        co_return r;
    }
    std::string rnd_data(u64 n)
    {
        std::string s(n, 0);
        const u64 x = wr(1, 250);
        for (u64 i = 0; i < n; ++i) s[i] = char(x + i * 7);
        return s;
    }
    void model_write(Client* c, u64 off, const char* p, u64 n)
    {
        Quiet q;
        if (c->model.size() < off + n) c->model.resize(off + n, '\0');
        memcpy(c->model.data() + off, p, n);
    }

    int own_fd(Client* c, const std::string& path, i64 r)
    {
        Quiet q;
        const std::string d = sim::fd_desc(int(r));
        SIM_CHECK(d.find(path) != std::string::npos, "io:result", "opening %s gave descriptor %lld, which is %s", path.c_str(), (long long)r, d.c_str());
        return int(r);
    }
    DetachedTask client(Client* c)
    {
        Frame f;
        co_await SwitchToWorker(*c->w);
        std::string path = "f" + std::to_string(c->id);
        // own descriptors
        for (int tries = 0; c->fd < 0; ++tries)
        {
            const i64 r = co_await call(c, c->w->async_openat(path, O_RDWR | O_CREAT, 0644), kOpOpen, 0, -2, ~0ull, ~1ull, false);
            if (r >= 0) c->fd = own_fd(c, path, r);
            if (r < 0 || tries > 20)
            {
                if (tries > 20)
                {
                    c->ops = 0;
                    break;
                }
                co_await c->ticker->turn(*c->w);
            }
        }
        for (u64 k = 0; k < c->ops; ++k)
        {
            const u64 n = wr(1, 200), off = wr(0, 300);
            const u64 m = wc(0.05) ? 0 : n;   // a transfer of nothing is a success
            {
                const u64 active = c->w->get_stats().active_coroutines;
                SIM_CHECK(active <= c->max_slots, "io:slots", "%llu operations in flight, at most %llu are allowed", (unsigned long long)active, (unsigned long long)c->max_slots);
            }
            switch (c->sk < 0 ? wr(0, 15) : wr(0, 19))
            {
                case 16:
                case 17:
                {
                    std::string d = rnd_data(n + 2);
                    const u64 a = wr(1, n);
                    iovec iov[2] = {{d.data(), a}, {d.data() + a, n - a + 2}};
                    msghdr m{};
                    m.msg_iov = iov;
                    m.msg_iovlen = 2;
                    const u64 mark = sim::op_log_size();
                    const i64 r = co_await call(c, c->w->async_sendmsg(c->sk, &m, MSG_NOSIGNAL), kOpSendmsg, u64(&m), c->sk, ~0ull, ~1ull, false);
                    if (r >= 0)
                    {
                        // the caller does not learn how much was sent
                        const Seen s = find(mark, kOpSendmsg, u64(&m), -1, 0);
                        Quiet q;
                        c->sent.append(d, 0, size_t(s.last.res));
                    }
                    break;
                }
                case 18:
                {
                    if (c->rcvd == c->to_come) break;
                    std::string b(n + 16, '\x5a');
                    const i64 r = co_await call(c, c->w->async_read(c->sk, std::span<char>(b.data() + 8, n)), kOpRead, u64(b.data() + 8), c->sk, n, ~0ull, true);
                    if (r >= 0)
                    {
                        SIM_CHECK(r > 0 && u64(r) <= n && c->rcvd + u64(r) <= c->to_come, "io:data", "read %lld bytes from a connection which holds %llu", (long long)r, (unsigned long long)(c->to_come - c->rcvd));
                        check_stream(c->id, c->rcvd, b.data() + 8, u64(r), "io:data", "read from a connection");
                        c->rcvd += u64(r);
                    }
                    for (u64 i = 0; i < 8; ++i) SIM_CHECK(b[i] == '\x5a' && b[n + 8 + i] == '\x5a', "io:overrun", "memory outside the buffer changed");
                    break;
                }
                case 19:
                    co_await call(c, c->w->async_poll(c->sk, POLLOUT), kOpPoll, 0, c->sk, ~0ull, ~1ull, false);
                    break;
                case 0:
                case 1:
                {
                    std::string d = rnd_data(n);
                    const i64 r = co_await call(c, c->w->async_write_at(c->fd, std::span<const char>(d.data(), m), off), kOpWrite, u64(d.data()), c->fd, m, off, true);
                    if (r > 0) model_write(c, off, d.data(), u64(r));
                    break;
                }
                case 2:
                {
                    std::string d = rnd_data(n);
                    const i64 r = co_await call(c, c->w->async_write(c->fd, std::span<const char>(d.data(), n)), kOpWrite, u64(d.data()), c->fd, n, ~0ull, true);
                    if (r > 0)
                    {
                        model_write(c, c->pos, d.data(), u64(r));
                        c->pos += u64(r);
                    }
                    break;
                }
                case 3:
                case 4:
                {
                    std::string b(n + 16, '\x5a');
                    const i64 r = co_await call(c, c->w->async_read_at(c->fd, std::span<char>(b.data() + 8, m), off), kOpRead, u64(b.data() + 8), c->fd, m, off, true);
                    if (r >= 0)
                    {
                        SIM_CHECK(u64(r) <= m, "io:result", "read more than asked");
                        if (r == 0 && m) SIM_CHECK(off >= c->model.size(), "io:data", "end of file reported inside the file");
                        SIM_CHECK(off + u64(r) <= c->model.size() || r == 0, "io:data", "read beyond the end of the file");
                        if (r) SIM_CHECK(!memcmp(b.data() + 8, c->model.data() + off, size_t(r)), "io:data", "read returned other data than the file holds");
                    }
                    for (u64 i = 0; i < 8; ++i) SIM_CHECK(b[i] == '\x5a' && b[n + 8 + i] == '\x5a', "io:overrun", "memory outside the buffer changed");
                    break;
                }
                case 5:
                {
                    std::string b(n, 0);
                    const i64 r = co_await call(c, c->w->async_read(c->fd, std::span<char>(b.data(), n)), kOpRead, u64(b.data()), c->fd, n, ~0ull, true);
                    if (r > 0)
                    {
                        SIM_CHECK(c->pos + u64(r) <= c->model.size() && !memcmp(b.data(), c->model.data() + c->pos, size_t(r)), "io:data", "read returned other data than the file holds");
                        c->pos += u64(r);
                    }
                    break;
                }
                case 6:
                {
                    std::string d = rnd_data(n + 2);
                    const u64 a = wr(1, n);
                    iovec iov[3] = {{d.data(), a}, {d.data() + a, n - a + 1}, {d.data() + n + 1, 1}};
                    if (!m) iov[0].iov_len = iov[1].iov_len = iov[2].iov_len = 0;
                    const i64 r = co_await call(c, c->w->async_writev(c->fd, iov, 3, off), kOpWritev, u64(iov), c->fd, 3, off, false);
                    if (r > 0) model_write(c, off, d.data(), u64(r));
                    break;
                }
                case 7:
                {
                    std::string d(n + 2, 0);
                    const u64 a = wr(1, n);
                    iovec iov[2] = {{d.data(), a}, {d.data() + a, n - a + 2}};
                    const i64 r = co_await call(c, c->w->async_readv(c->fd, iov, 2, off), kOpReadv, u64(iov), c->fd, 2, off, false);
                    if (r > 0) SIM_CHECK(off + u64(r) <= c->model.size() && !memcmp(d.data(), c->model.data() + off, size_t(r)), "io:data", "readv returned other data than the file holds");
                    break;
                }
                case 8:
                    if (wc(0.5))
                        co_await call(c, c->w->async_fsync(c->fd), kOpFsync, 0, c->fd, ~0ull, ~1ull, false);
                    else
                        co_await call(c, c->w->async_fdatasync(c->fd), kOpFsync, 0, c->fd, ~0ull, ~1ull, false);
                    break;
                case 9:
                {
                    const i64 r = co_await call(c, c->w->async_ftruncate(c->fd, off_t(off)), kOpTrunc, 0, c->fd, ~0ull, off, false);
                    Quiet q;
                    if (r == 0) c->model.resize(off, '\0');
                    break;
                }
                case 10:
                {
                    const i64 r = co_await call(c, c->w->async_fallocate(c->fd, 0, off_t(off + 1)), kOpFalloc, 0, c->fd, ~0ull, 0, true);
                    Quiet q;
                    if (r == 0 && c->model.size() < off + 1) c->model.resize(off + 1, '\0');
                    break;
                }
                case 11:
                {
                    const u64 d = wr(0, 50000);
                    const u64 t0 = sim::now();
                    const i64 r = co_await call(c, c->w->async_sleep(std::chrono::nanoseconds(d)), kOpTimeout, 0, -2, ~0ull, ~1ull, false);
                    if (r == 0) SIM_CHECK(sim::now() >= t0 + d, "io:result", "slept too short");
                    break;
                }
                case 12:
                {
                    // distinct failures
                    const u64 which = wr(0, 2);
                    if (which == 0)
                    {
                        const i64 r = co_await call(c, c->w->async_openat(path + ".none", O_RDONLY, 0), kOpOpen, 0, -2, ~0ull, ~1ull, false);
                        SIM_CHECK(r == kNotStarted || r == -ENOENT || r == -EMFILE || r == -EIO, "io:result", "opening a missing file gave %lld", (long long)r);
                    }
                    else if (which == 1)
                    {
                        const i64 r = co_await call(c, c->w->async_unlink_at(AT_FDCWD, path + ".none", 0), kOpUnlink, 0, -2, ~0ull, ~1ull, false);
                        SIM_CHECK(r == kNotStarted || r == -ENOENT || r == -EIO, "io:result", "unlinking a missing file gave %lld", (long long)r);
                    }
                    else
                    {
                        std::string d = rnd_data(n);
                        const i64 r = co_await call(c, c->w->async_write_at(400, std::span<const char>(d.data(), n), off), kOpWrite, u64(d.data()), 400, n, off, true);
                        SIM_CHECK(r == kNotStarted || r == -EBADF, "io:result", "writing to a bad descriptor gave %lld", (long long)r);
                    }
                    break;
                }
                case 13:
                {
                    // the read end waits for data another operation of the kernel delivers
                    std::string d = rnd_data(n);
                    const i64 r = co_await call(c, c->w->async_write(c->pw, std::span<const char>(d.data(), n)), kOpWrite, u64(d.data()), c->pw, n, ~0ull, true);
                    if (r > 0)
                    {
                        Quiet q;
                        c->piped.append(d, 0, size_t(r));
                    }
                    break;
                }
                case 14:
                {
                    if (c->piped_head == c->piped.size()) break;
                    std::string d(n, 0);
                    const i64 r = co_await call(c, c->w->async_read(c->pr, std::span<char>(d.data(), n)), kOpRead, u64(d.data()), c->pr, n, ~0ull, true);
                    if (r > 0)
                    {
                        SIM_CHECK(c->piped_head + u64(r) <= c->piped.size() && !memcmp(d.data(), c->piped.data() + c->piped_head, size_t(r)), "io:data", "read other bytes from the pipe than were written");
                        c->piped_head += u64(r);
                    }
                    break;
                }
                default:
                {
                    // close and open again
                    const i64 r = co_await call(c, c->w->async_close(c->fd), kOpClose, 0, c->fd, ~0ull, ~1ull, false);
                    if (r != kNotStarted)
                    {
                        c->fd = -1;
                        c->pos = 0;
                        for (int i = 0; i < 20 && c->fd < 0; ++i)
                        {
                            const i64 o = co_await call(c, c->w->async_openat(path, O_RDWR, 0), kOpOpen, 0, -2, ~0ull, ~1ull, false);
                            if (o >= 0)
                                c->fd = own_fd(c, path, o);
                            else co_await c->ticker->turn(*c->w);
                        }
                        if (c->fd < 0) k = c->ops;   // starved by the injected failures
                    }
                    break;
                }
            }
        }
        Quiet q;
        c->finished = true;
        c->tot->clients_done++;
    }
}  // namespace

SIM_SCENARIO(worker_io)
{
    setup(0.05);
    LeakCheck leak;
    const u64 nw = wr(1, 2);
    WorkerConfig cfg;
    cfg.uring_queue_depth = pow2(0, 6);
    static const u64 slots[] = {64, 1, 2, 3, 8, 0};
    cfg.default_op_slots = slots[wr(0, 5)];
    static const float gf[] = {1.5f, 1.01f, 1.1f, 2.0f, 3.0f};
    cfg.op_slots_growth_factor = gf[wr(0, 4)];
    const u64 nc = wr(1, 4) == 1 ? wr(1, 40) : wr(1, 12);
    cfg.max_op_slots = wc(0.6) ? 1024 : std::max<u64>(1, wr(1, nc));
    cfg.task_queue_capacity = 64;
    double fe = 0;
    if (sim::chance(Conf, 0.25))
    {
        sim::set_fault(sim::F_Eintr, 0.1);
        sim::set_fault(sim::F_SockEintr, 0.1);
    }
    if (sim::chance(Conf, 0.3)) sim::set_fault(sim::F_ShortRead, 0.3);
    if (sim::chance(Conf, 0.3)) sim::set_fault(sim::F_ShortWrite, 0.3);
    if (sim::chance(Conf, 0.3))
    {
        sim::set_fault(sim::F_Eio, 0.1);
        sim::set_fault(sim::F_Enospc, 0.1);
        sim::set_fault(sim::F_FsyncFail, 0.1);
        fe = 0.1;
    }
    if (sim::chance(Conf, 0.2)) sim::set_fault(sim::F_CloseFail, 0.2);
    if (sim::chance(Conf, 0.2)) sim::set_fault(sim::F_TimerLate, 0.2);
    if (sim::chance(Conf, 0.2)) sim::knobs().max_cq = 1u << sim::range(Conf, 1, 4);
    auto* pool = new IOPool(nw, cfg);
    // a worker that cannot submit its first read fails to start
    if (sim::chance(Conf, 0.25)) sim::set_fault(sim::F_PartialSubmit, 0.2);
    if (sim::chance(Conf, 0.25)) sim::set_fault(sim::F_SubmitEintr, 0.1);
    auto* ticker = new Ticker;
    sim::knobs().sock_buf = std::max<size_t>(sim::knobs().sock_buf, 16384);
    const int lst = sim::peer_listen(700);
    Tot tot;
    std::vector<std::unique_ptr<Client>> cs;
    for (u64 i = 0; i < nc; ++i)
    {
        auto c = std::make_unique<Client>();
        c->w = pool->get_worker(wr(0, nw - 1));
        c->tot = &tot;
        c->ticker = ticker;
        c->id = i;
        c->ops = wr(1, 20);
        int p[2];
        if (::pipe(p) != 0) sim::sim_error("pipe");
        c->pr = p[0];
        c->pw = p[1];
        c->max_slots = std::max(cfg.default_op_slots, cfg.max_op_slots);
        if (wc(0.4))
        {
            c->sk = connect_plain(700);
            if (c->sk < 0) sim::sim_error("connect");
            c->peer = sim::peer_accept(lst);
            c->to_come = wr(0, 2000);
            const std::string d = stream_data(i, 0, c->to_come);
            if (c->to_come) sim::peer_send(c->peer, d.data(), d.size());
        }
        cs.push_back(std::move(c));
    }
    sim::set_fault(sim::F_Emfile, fe);
    if (sim::chance(Conf, 0.3)) sim::set_fault(sim::F_Fragment, 0.3);
    const u64 mark = sim::op_log_size();
    for (auto& c: cs) client(c.get()).detach();
    sim::settle(10 * sec);
    {
        Quiet q;
        for (auto& c: cs) SIM_CHECK(c->finished, "io:lost", "an operation was never completed: client %llu, %llu pending", (unsigned long long)c->id, (unsigned long long)tot.pending);
        SIM_CHECK(sim::inflight_ops() <= nw, "io:phantom", "operations nobody waits for are in flight");
        u64 seen[64] = {};
        for (u64 i = mark; i < sim::op_log_size(); ++i)
        {
            const auto& r = sim::op_log(i);
            if (r.user_data != ~0ull && r.opcode < 64) seen[r.opcode]++;
        }
        for (int i = 0; i < 64; ++i)
            if (i != kOpPoll) SIM_CHECK(seen[i] == tot.started[i], "io:conservation", "the kernel performed %llu operations of kind %d, %llu were started", (unsigned long long)seen[i], i, (unsigned long long)tot.started[i]);
        sim::note_nontrivial();
    }
    sim::faults_enabled(false);
    // every slot is free again
    std::atomic<u64> looked{0};
    for (u64 i = 0; i < nw; ++i)
        [](Worker* w, std::atomic<u64>* n) -> DetachedTask {
            co_await SwitchToWorker(*w);
            const u64 active = w->get_stats().active_coroutines;
            SIM_CHECK(active == 0, "io:slots", "%llu slots are still taken although nothing is in flight", (unsigned long long)active);
            n->fetch_add(1);
        }(pool->get_worker(i), &looked).detach();
    sim::settle(5 * sec);
    SIM_CHECK(looked.load() == nw, "io:lost", "a worker does not run any more");
    delete ticker;
    for (auto& c: cs)
        if (c->sk >= 0)
        {
            ::close(c->sk);
            std::string got;
            char b[4096];
            for (;;)
            {
                const long r = sim::peer_recv(c->peer, b, sizeof b, 5 * sec);
                if (r <= 0) break;
                got.append(b, size_t(r));
            }
            // unread data turn the close into a reset, which may overtake what was sent
            if (c->rcvd == c->to_come)
                SIM_CHECK(got == c->sent, "io:data", "the peer received %zu bytes other than the %zu sent", got.size(), c->sent.size());
        }
    // the files hold what was written
    for (auto& c: cs)
    {
        const std::string p = "f" + std::to_string(c->id);
        if (const int fd = ::open(p.c_str(), O_RDONLY); fd >= 0)
        {
            std::string b(2000, 0);
            const long n = ::pread(fd, b.data(), b.size(), 0);
            SIM_CHECK(n == long(c->model.size()) && !memcmp(b.data(), c->model.data(), size_t(n)), "io:data", "file %s holds other content (%ld bytes) than was written (%zu bytes)", p.c_str(), n, c->model.size());
            ::close(fd);
        }
        else
            SIM_CHECK(c->model.empty(), "io:data", "file %s is missing", p.c_str());
    }
    delete pool;
    Quiet q;
    SIM_CHECK(Frame::live == 0, "io:frame-leak", "%lld frames leaked", (long long)Frame::live);
}
