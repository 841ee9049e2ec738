// C16: listening, connecting, accepting, and the byte streams of many connections.
#include "net_common.h"

#include "kio/net/socket.h"
#include "kio/sync/sync_wait.h"

using namespace scen;
using kio::net::FDGuard;
using kio::net::Socket;
using kio::net::SocketAddress;

namespace
{
    constexpr u16 kPort = 7000;
    // What one connection carries: `up` bytes of stream 2*id from the connecting side, `down` bytes of stream 2*id+1 back.
    struct Conn
    {
        u64 id;
        u64 up, down;
        u16 port = 0;              // the connecting side's
        bool v6 = false;
        bool connected = false, accepted = false;
        u64 up_got = 0, down_got = 0;
        bool up_done = false, down_done = false, failed = false, refused = false;
        int server_worker = -1;
    };
    struct Lst
    {
        Socket sock;
        u16 port;
        bool v6;
        bool stopping = false;
        u64 accepted = 0;
    };
    struct World
    {
        std::map<u64, Conn> conns;
        std::map<u16, u64> by_port;
        bool clean = true;         // no faults that end connections
        std::atomic<u64> handlers{0}, clients{0}, loops{0};
        Ticker* ticker = nullptr;
        std::vector<std::unique_ptr<Lst>> lst;
    };
    World* g;
    struct Header
    {
        u64 id, up, down;
        u16 port;
    };

    bool plausible(int e)
    {
        // what a fault or a peer that went away may cause
        return e == ECONNRESET || e == EPIPE || e == EIO || e == ECANCELED || e == EAGAIN || e == 2006 /* end of stream inside an exact transfer */;
    }
    // An exact transfer found the submission queue full, perhaps half way: its connection cannot go on.
    void not_started(int e)
    {
        Quiet q;
        if (e == EAGAIN) g->clean = false;
    }
    // Reads n bytes of a stream by the means chosen at random. False if the connection ended or failed.
    Task<bool> take(Worker& w, int fd, u64 stream, u64 n, u64* got, const char* what)
    {
        u64 at = 0;
        while (at < n)
        {
            const u64 k = std::min<u64>(n - at, some_size(1, 20000));
            std::string b(k, 0);
            if (wc(0.5))
            {
                auto r = co_await w.async_read_exact(fd, std::span<char>(b.data(), b.size()));
                if (!r)
                {
                    const int e = r.error().value;
                    not_started(e);
                    SIM_CHECK(!g->clean, "tcp:error", "%s: reading %llu bytes at %llu of %llu failed with error %d, nothing was wrong", what, (unsigned long long)k, (unsigned long long)at, (unsigned long long)n, e);
                    SIM_CHECK(plausible(e) || e == EPIPE, "tcp:error", "%s: reading failed with error %d", what, e);
                    co_return false;
                }
                check_stream(stream, at, b.data(), k, "tcp:content", what);
                at += k;
            }
            else
            {
                auto r = co_await w.async_read(fd, std::span<char>(b.data(), b.size()));
                if (!r && r.error().value == EAGAIN)
                {
                    co_await g->ticker->turn(w);
                    continue;
                }
                if (!r || *r == 0)
                {
                    SIM_CHECK(!g->clean, "tcp:error", "%s: reading at %llu of %llu gave %s %d, nothing was wrong", what, (unsigned long long)at, (unsigned long long)n, r ? "end of stream" : "error", r ? 0 : r.error().value);
                    if (!r) SIM_CHECK(plausible(r.error().value), "tcp:error", "%s: reading failed with error %d", what, r.error().value);
                    co_return false;
                }
                SIM_CHECK(*r > 0 && u64(*r) <= k, "tcp:result", "%s: a read of %llu bytes returned %d", what, (unsigned long long)k, *r);
                check_stream(stream, at, b.data(), u64(*r), "tcp:content", what);
                at += u64(*r);
            }
            *got = at;
        }
        co_return true;
    }
    Task<bool> give(Worker& w, int fd, u64 stream, u64 n, const char* what)
    {
        u64 at = 0;
        while (at < n)
        {
            const u64 k = std::min<u64>(n - at, some_size(1, 20000));
            const std::string b = stream_data(stream, at, k);
            if (wc(0.6))
            {
                auto r = co_await w.async_write_exact(fd, std::span<const char>(b.data(), b.size()));
                if (!r)
                {
                    not_started(r.error().value);
                    SIM_CHECK(!g->clean, "tcp:error", "%s: writing failed with error %d, nothing was wrong", what, r.error().value);
                    SIM_CHECK(plausible(r.error().value), "tcp:error", "%s: writing failed with error %d", what, r.error().value);
                    co_return false;
                }
                at += k;
            }
            else
            {
                auto r = co_await w.async_write(fd, std::span<const char>(b.data(), b.size()));
                if (!r && r.error().value == EAGAIN)
                {
                    co_await g->ticker->turn(w);
                    continue;
                }
                if (!r)
                {
                    SIM_CHECK(!g->clean, "tcp:error", "%s: writing failed with error %d, nothing was wrong", what, r.error().value);
                    SIM_CHECK(plausible(r.error().value), "tcp:error", "%s: writing failed with error %d", what, r.error().value);
                    co_return false;
                }
                SIM_CHECK(*r > 0 && u64(*r) <= k, "tcp:result", "%s: a write of %llu bytes returned %d", what, (unsigned long long)k, *r);
                at += u64(*r);
            }
            if (wc(0.1)) co_await w.async_sleep(std::chrono::nanoseconds(wr(1, 300'000)));
        }
        co_return true;
    }
    DetachedTask handle(Worker& w, Socket s, SocketAddress peer, bool have_addr)
    {
        Frame f;
        co_await SwitchToWorker(w);
        const int fd = s.get();
        Header h{};
        auto r = co_await w.async_read_exact(fd, std::span<char>((char*)&h, sizeof h));
        if (r)
        {
            Conn* c;
            {
                Quiet q;
                auto it = g->conns.find(h.id);
                SIM_CHECK(it != g->conns.end() && it->second.up == h.up && it->second.down == h.down && it->second.port == h.port, "tcp:content", "the first bytes of a connection are not what its peer sent");
                c = &it->second;
                SIM_CHECK(!c->accepted, "tcp:accept", "a connection was accepted twice");
                c->accepted = true;
                if (have_addr)
                {
                    const bool ok = peer.populate_from_storage();
                    SIM_CHECK(ok, "tcp:peer", "the accepted peer's address is not known (length %u, family %d)", unsigned(peer.addrlen), int(peer.addr.ss_family));
                    SIM_CHECK(peer.port == h.port, "tcp:peer", "the accepted peer's port is reported as %u, it is %u", unsigned(peer.port), unsigned(h.port));
                    SIM_CHECK(peer.family == (c->v6 ? AF_INET6 : AF_INET), "tcp:peer", "the accepted peer's family is reported as %d", peer.family);
                    SIM_CHECK(c->v6 ? peer.ip == "::1" : (peer.ip == "127.0.0.1" || peer.ip.rfind("10.0.0.", 0) == 0), "tcp:peer", "the accepted peer's address is reported as %s", peer.ip.c_str());
                }
            }
            bool ok = co_await take(w, fd, 2 * h.id, h.up, &c->up_got, "server");
            if (ok)
            {
                {
                    Quiet q;
                    c->up_done = true;
                }
                ok = co_await give(w, fd, 2 * h.id + 1, h.down, "server");
            }
            Quiet q;
            if (!ok) c->failed = true;
            if (ok && h.up + h.down > 0) sim::note_nontrivial();
        }
        else
        {
            not_started(r.error().value);
            SIM_CHECK(!g->clean, "tcp:error", "reading the first bytes of a connection failed with error %d", r.error().value);
        }
        if (wc(0.3))
        {
            const int k = s.release();
            SIM_CHECK(k == fd && !s.is_valid() && !s, "tcp:socket", "release did not hand over the descriptor");
            auto cr = co_await w.async_close(k);
            // the descriptor is invalid afterwards, whatever close reports; an operation that never started leaves it open
            if (!cr && cr.error().value == EAGAIN) ::close(k);
        }
        else if (wc(0.3))
        {
            Socket t;
            t = std::move(s);
            SIM_CHECK(!s.is_valid() && t.get() == fd, "tcp:socket", "a moved socket lost its descriptor");
            Socket u(std::move(t));
            SIM_CHECK(u.get() == fd, "tcp:socket", "a moved socket lost its descriptor");
            FDGuard gd(u.release());
            FDGuard g2(std::move(gd));
            SIM_CHECK(gd.get() == -1 && g2.get() == fd, "tcp:socket", "a moved guard lost its descriptor");
        }
        {
            Socket gone(std::move(s));
        }
        g->handlers.fetch_sub(1);
    }
    DetachedTask accept_loop(Worker& w, IOPool* pool, Lst* l)
    {
        Frame f;
        co_await SwitchToWorker(w);
        for (;;)
        {
            const int how = int(wr(0, 2));
            SocketAddress a;
            Result<int> r = 0;
            if (how == 0)
                r = co_await w.async_accept(l->sock, a);
            else if (how == 1)
            {
                a.addrlen = sizeof a.addr;
                r = co_await w.async_accept(l->sock.get(), a.as_sockaddr_mut(), &a.addrlen);
            }
            else
                r = co_await w.async_accept(l->sock.get(), nullptr, nullptr);
            if (!r)
            {
                const int e = r.error().value;
                bool stop;
                {
                    Quiet q;
                    stop = l->stopping;
                }
                if (stop) break;
                SIM_CHECK(e == EMFILE || e == ECONNABORTED || e == EAGAIN, "tcp:error", "accepting failed with error %d", e);
                SIM_CHECK(!g->clean || e == EAGAIN, "tcp:error", "accepting failed with error %d, nothing was wrong", e);
                co_await g->ticker->turn(w);
                continue;
            }
            {
                Quiet q;
                l->accepted++;
                SIM_CHECK(std::string(sim::fd_desc(*r)).rfind("socket", 0) == 0, "tcp:accept", "accept returned descriptor %d, which is %s", *r, sim::fd_desc(*r));
            }
            g->handlers.fetch_add(1);
            Worker& hw = wc(0.5) ? w : *pool->get_worker(wr(0, pool->num_workers() - 1));
            handle(hw, Socket(*r), a, how != 2).detach();
        }
        g->loops.fetch_sub(1);
    }
    Header header_of(Conn* c)
    {
        Quiet q;
        Header h;
        memset(&h, 0, sizeof h);
        h.id = c->id;
        h.up = c->up;
        h.down = c->down;
        h.port = c->port;
        return h;
    }
    Task<void> client(Worker& w, Conn* c, Lst* l)
    {
        Frame f;
        co_await SwitchToWorker(w);
        const std::string host = l->v6 ? "::1" : wc(0.3) ? "localhost" : "127.0.0.1";
        auto addr = kio::net::resolve_address(host, l->port);
        SIM_CHECK(addr.has_value(), "tcp:resolve", "resolving %s failed", host.c_str());
        SIM_CHECK(addr->family == (l->v6 ? AF_INET6 : AF_INET) && addr->addr.ss_family == addr->family && addr->addrlen == (l->v6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in)), "tcp:resolve", "%s was resolved to family %d length %u", host.c_str(), addr->family, unsigned(addr->addrlen));
        SIM_CHECK(addr->populate_from_storage() && addr->port == l->port && addr->ip == (l->v6 ? "::1" : "127.0.0.1"), "tcp:resolve", "%s port %u was resolved to %s port %u", host.c_str(), unsigned(l->port), addr->ip.c_str(), unsigned(addr->port));
        auto fd = kio::net::create_tcp_fd(addr->family);
        if (!fd)
        {
            SIM_CHECK(fd.error() == kio::Error::from_errno(sim::last_errno()), "tcp:error", "creating a socket failed with error %d, reported as %d", sim::last_errno(), fd.error().value);
            Quiet q;
            c->refused = true;
            co_return;
        }
        Socket s(*fd);
        if (wc(0.5)) (void)kio::net::set_tcp_fd_options(s.get());
        Result<void> r;
        do
        {
            if (!r) co_await g->ticker->turn(w);
            r = co_await w.async_connect(s.get(), addr->as_sockaddr(), addr->addrlen);
        } while (!r && r.error().value == EAGAIN);
        if (!r)
        {
            const int e = r.error().value;
            SIM_CHECK(e == ECONNREFUSED || e == ECONNRESET || e == ETIMEDOUT, "tcp:error", "connecting failed with error %d", e);
            SIM_CHECK(!g->clean, "tcp:error", "connecting failed with error %d, nothing was wrong", e);
            Quiet q;
            c->refused = true;
            co_return;
        }
        sockaddr_storage me{};
        socklen_t ml = sizeof me;
        ::getsockname(s.get(), (sockaddr*)&me, &ml);
        {
            Quiet q;
            c->connected = true;
            c->v6 = l->v6;
            c->port = ntohs(l->v6 ? ((sockaddr_in6*)&me)->sin6_port : ((sockaddr_in*)&me)->sin_port);
        }
        const Header h = header_of(c);
        auto wres = co_await w.async_write_exact(s.get(), std::span<const char>((const char*)&h, sizeof h));
        bool ok = wres.has_value();
        if (!ok) not_started(wres.error().value);
        if (!ok) SIM_CHECK(!g->clean, "tcp:error", "sending the first bytes failed with error %d", wres.error().value);
        if (ok) ok = co_await give(w, s.get(), 2 * h.id, h.up, "client");
        if (ok) ok = co_await take(w, s.get(), 2 * h.id + 1, h.down, &c->down_got, "client");
        if (ok)
        {
            // nothing more comes
            char x;
            Result<int> e = 0;
            do
            {
                if (!e) co_await g->ticker->turn(w);
                e = co_await w.async_read(s.get(), std::span<char>(&x, 1));
            } while (!e && e.error().value == EAGAIN);
            if (g->clean) SIM_CHECK(e && *e == 0, "tcp:extra", "after the whole stream the connection gave %d instead of its end", e ? *e : -e.error().value);
            SIM_CHECK(!e || *e == 0, "tcp:extra", "a connection carried more bytes than its peer sent");
            Quiet q;
            c->down_done = true;
        }
        Quiet q;
        if (!ok) c->failed = true;
    }
    // A client outside the program.
    void foreign(Conn* c, u16 port, int how)
    {
        const int p = sim::peer_connect(port);
        if (p < 0)
        {
            Quiet q;
            SIM_CHECK(!g->clean, "tcp:error", "nobody listens on the port: %d", p);
            c->refused = true;
            return;
        }
        {
            Quiet q;
            c->connected = true;
            c->port = sim::peer_local_port(p);
        }
        const Header h = header_of(c);
        std::string out((const char*)&h, sizeof h);
        out += stream_data(2 * h.id, 0, h.up);
        u64 n = out.size();
        if (how) n = wr(0, n);
        if (n) sim::peer_send(p, out.data(), n);
        if (how == 1)
            sim::peer_reset(p);
        else if (how == 2)
            sim::peer_close(p);
        else
        {
            if (wc(0.3)) sim::peer_shutdown_write(p);
            u64 got = 0;
            char b[4096];
            for (;;)
            {
                const long r = sim::peer_recv(p, b, wr(1, sizeof b), 60 * sec);
                if (r <= 0)
                {
                    if (g->clean) SIM_CHECK(r == 0 && got == h.down, "tcp:content", "a foreign client got %llu of %llu bytes, then %ld", (unsigned long long)got, (unsigned long long)h.down, r);
                    SIM_CHECK(r != -EAGAIN, "tcp:stuck", "a foreign client got no answer for a minute");
                    break;
                }
                SIM_CHECK(got + u64(r) <= h.down, "tcp:extra", "a connection carried more bytes than its peer sent");
                check_stream(2 * h.id + 1, got, b, u64(r), "tcp:content", "foreign client");
                got += u64(r);
                if (wc(0.1)) sim::sleep_ns(wr(1, 2'000'000));
            }
            Quiet q;
            if (got == h.down) c->down_done = true;
            else c->failed = true;
            sim::peer_close(p);
        }
        Quiet q;
        if (how) c->failed = true;
    }
    // Sets up a listening socket, by either way. On failure: nothing is left open, the error names the cause.
    std::unique_ptr<Lst> make_listener(u16 port, bool v6)
    {
        const int before = sim::open_fds();
        const char* ip = v6 ? "::1" : wc(0.5) ? "0.0.0.0" : "127.0.0.1";
        Result<int> fd = -1;
        if (wc(0.5))
        {
#pragma clang diagnostic push
#pragma clang diagnostic ignored "-Wdeprecated-declarations"
            fd = kio::net::create_tcp_server_socket(ip, port, 64);
#pragma clang diagnostic pop
        }
        else
        {
            fd = kio::net::create_tcp_fd(v6 ? AF_INET6 : AF_INET);
            if (fd)
            {
                FDGuard guard(*fd);
                Result<void> r = kio::net::set_fd_server_options(*fd);
                if (r)
                {
                    auto a = kio::net::resolve_address(ip, port);
                    r = kio::net::listen_on_sock(*fd, *a, 64);
                }
                if (!r)
                    fd = std::unexpected(r.error());
                else
                    guard.fd = -1;
            }
        }
        if (!fd)
        {
            const int e = sim::last_errno();
            SIM_CHECK(fd.error() == kio::Error::from_errno(e), "tcp:error", "setting up a listening socket failed with error %d, reported as %d", e, fd.error().value);
            SIM_CHECK(sim::open_fds() == before, "tcp:leak", "a failed listening socket left %d descriptors open", sim::open_fds() - before);
            sim::probe("listening socket failed");
            return nullptr;
        }
        SIM_CHECK(sim::open_fds() == before + 1, "tcp:leak", "setting up a listening socket opened %d descriptors", sim::open_fds() - before);
        const int fl = ::fcntl(*fd, F_GETFL);
        SIM_CHECK(fl & O_NONBLOCK, "tcp:flags", "the listening socket blocks");
        auto l = std::make_unique<Lst>();
        l->sock = Socket(*fd);
        l->port = port;
        l->v6 = v6;
        return l;
    }
}  // namespace

SIM_SCENARIO(tcp)
{
    setup(0.1);
    LeakCheck leak;
    sim::set_bad_close_check(true);
    World world;
    g = &world;
    const int before = sim::open_fds();
    WorkerConfig cfg{};
    cfg.uring_queue_depth = 1u << wr(3, 7);
    cfg.default_op_slots = wr(16, 128);
    auto* ticker = new Ticker;
    world.ticker = ticker;
    auto* pool = new IOPool(wr(1, 3), cfg);
    {
        Quiet q;
        g->clean = wc(0.5);
    }
    if (sim::chance(Conf, 0.4)) sim::set_fault(sim::F_ShortRead, 0.2);
    if (sim::chance(Conf, 0.4)) sim::set_fault(sim::F_ShortWrite, 0.2);
    if (sim::chance(Conf, 0.3)) sim::set_fault(sim::F_Fragment, 0.5);
    // listening
    const bool bad_setup = sim::chance(Conf, 0.25);
    const u64 nl = wr(1, 2);
    for (u64 i = 0; i < nl; ++i)
    {
        const bool v6 = wc(0.25);
        if (bad_setup)
        {
            sim::set_fault(sim::F_SyscallFail, 0.3);
            sim::set_fault(sim::F_Emfile, 0.15);
        }
        auto l = make_listener(u16(kPort + i), v6);
        sim::set_fault(sim::F_SyscallFail, 0);
        sim::set_fault(sim::F_Emfile, 0);
        if (!l) l = make_listener(u16(kPort + i), v6);
        SIM_CHECK(l != nullptr, "tcp:listen", "a listening socket cannot be set up on a free port");
        world.lst.push_back(std::move(l));
    }
    if (bad_setup)
    {
        // an address in use is an error with its cause
        const int fd0 = sim::open_fds();
        const int p = sim::peer_listen(9000);
        (void)p;
        auto f = kio::net::create_tcp_fd(AF_INET);
        if (f)
        {
            Socket s(*f);
            auto a = kio::net::resolve_address("127.0.0.1", kPort);
            auto r = kio::net::listen_on_sock(s.get(), *a, 5);
            if (!world.lst[0]->v6) SIM_CHECK(!r && r.error() == kio::Error::from_errno(EADDRINUSE), "tcp:listen", "listening on an address in use did not fail with EADDRINUSE");
        }
        SIM_CHECK(sim::open_fds() == fd0, "tcp:leak", "a failed listening socket left a descriptor open");
        auto bad = kio::net::resolve_address("no.such.name", 80);
        SIM_CHECK(!bad, "tcp:resolve", "an unknown name was resolved");
    }
    if (!g->clean)
    {
        if (sim::chance(Conf, 0.4)) sim::set_fault(sim::F_ConnReset, 0.01);
        if (sim::chance(Conf, 0.4)) sim::set_fault(sim::F_ConnRefused, 0.1);
        if (sim::chance(Conf, 0.4)) sim::set_fault(sim::F_AcceptFail, 0.1);
        if (sim::chance(Conf, 0.3)) sim::set_fault(sim::F_Emfile, 0.1);
    }
    for (auto& l: world.lst)
        for (u64 i = 0, n = wr(1, 2); i < n; ++i)
        {
            g->loops.fetch_add(1);
            accept_loop(*pool->get_worker(wr(0, pool->num_workers() - 1)), pool, l.get()).detach();
        }
    // clients
    std::vector<std::thread> th;
    const u64 nc = wr(1, 8);
    th.reserve(nc);
    const bool big = wc(0.1);
    for (u64 i = 0; i < nc; ++i)
    {
        Conn* c;
        Lst* l = world.lst[wr(0, world.lst.size() - 1)].get();
        {
            Quiet q;
            c = &world.conns[i];
            c->id = i;
        }
        c->up = some_size(0, big ? 300'000 : 20'000);
        c->down = some_size(0, big ? 300'000 : 20'000);
        const bool ext = !l->v6 && wc(0.4);
        if (ext)
        {
            const int how = g->clean ? 0 : int(wr(0, 2));
            th.emplace_back([c, l, how] { foreign(c, l->port, how); });
        }
        else
        {
            Worker* w = pool->get_worker(wr(0, pool->num_workers() - 1));
            th.emplace_back([c, l, w] { kio::SyncWait(client(*w, c, l)); });
        }
    }
    for (auto& t: th) t.join();
    // handlers whose peers went away end by themselves
    const u64 t0 = sim::now();
    while (g->handlers.load() != 0)
    {
        SIM_CHECK(sim::now() - t0 < 120 * sec, "tcp:stuck", "%llu connections are served though their peers are gone", (unsigned long long)g->handlers.load());
        sim::sleep_ns(500'000);
    }
    if (g->clean)
    {
        Quiet q;
        for (auto& [id, c]: world.conns)
            SIM_CHECK(c.connected && c.accepted && c.up_done && c.down_done && !c.failed, "tcp:incomplete", "connection %llu did not carry all its bytes (%llu of %llu up, down %s)", (unsigned long long)id, (unsigned long long)c.up_got, (unsigned long long)c.up, c.down_done ? "complete" : "incomplete");
    }
    for (auto& l: world.lst)
    {
        {
            Quiet q;
            l->stopping = true;
        }
        ::shutdown(l->sock.get(), SHUT_RDWR);
    }
    const u64 t1 = sim::now();
    while (g->loops.load() != 0 || g->handlers.load() != 0)
    {
        SIM_CHECK(sim::now() - t1 < 120 * sec, "tcp:stuck", "accepting on a closed listening socket does not end");
        sim::sleep_ns(500'000);
    }
    pool->stop();
    delete pool;
    world.lst.clear();
    {
        // owners of a descriptor replaced, moved and swapped while they own one
        kio::net::Socket a(::socket(AF_INET, SOCK_STREAM, 0)), b(::socket(AF_INET, SOCK_STREAM, 0));
        FDGuard y(::socket(AF_INET, SOCK_STREAM, 0));
        if (wc(0.5)) a = std::move(b);
        std::optional<FDGuard> z;
        if (wc(0.5)) z.emplace(std::move(y));
        if (wc(0.3)) b = kio::net::Socket(::socket(AF_INET, SOCK_STREAM, 0));
        if (wc(0.3)) std::swap(a, b);
    }
    delete ticker;
    SIM_CHECK(sim::open_fds() == before, "tcp:leak", "%d descriptors leaked", sim::open_fds() - before);
    SIM_CHECK(Frame::live == 0, "tcp:frames", "%lld coroutines left", (long long)Frame::live);
}
