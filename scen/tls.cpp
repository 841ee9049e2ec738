// C20: TLS streams, listeners and connectors over a stand-in for OpenSSL and kernel TLS.
#include "net_common.h"
#include "tls_standin.h"

#include "kio/sync/sync_wait.h"
#include "kio/tls/listener.h"

using namespace scen;
using kio::net::Socket;
using kio::tls::TlsConfig;
using kio::tls::TlsConnector;
using kio::tls::TlsContext;
using kio::tls::TlsListener;
using kio::tls::TlsRole;
using kio::tls::TlsStream;

namespace
{
    constexpr u16 kPort = 8400, kForeign = 8500;
    struct Header
    {
        u64 id, up, down;
        u16 port;
        u8 closing;       // 0 the client closes first, 1 the server, 2 both, 3 the client drops the connection, 4 the server
        u8 duplex;
    };
    struct Conn
    {
        u64 id = 0, up = 0, down = 0;
        u16 port = 0;
        int closing = 0;
        bool duplex = false;
        bool should = true;         // both sides accept each other
        bool accepted = false, up_done = false, down_done = false;
        bool client_gone = false, server_gone = false;   // that side has closed, dropped or lost its connection
    };
    struct World
    {
        std::map<u64, Conn> conns;
        bool clean = true;
        bool stopping = false;
        u64 streams = 0;
        std::atomic<u64> loops{0}, handlers{0}, clients{0}, beats{0};
        std::atomic<bool> end{false};
        Ticker* ticker = nullptr;
    };
    World* g;

    bool plausible(int e) { return e == ECONNRESET || e == EPIPE || e == EAGAIN || e == EIO || e == EMFILE || e == 2006; }
    void hurt(int e)
    {
        Quiet q;
        if (e == EAGAIN || e == EMFILE) g->clean = false;
    }
    // A failed transfer of a side whose peer may be gone.
    bool excused(bool peer_gone)
    {
        Quiet q;
        return !g->clean || peer_gone;
    }
    Task<bool> give(Worker& w, TlsStream& s, u64 stream, u64 n, const bool* peer_gone, const char* what)
    {
        u64 at = 0;
        while (at < n)
        {
            const u64 k = std::min<u64>(n - at, some_size(1, 6000));
            const std::string b = stream_data(stream, at, k);
            const u64 how = wr(0, 5);
            Result<void> r;
            u64 done = k;
            if (how == 0)
            {
                const std::string path = "s" + std::to_string(stream) + "_" + std::to_string(at);
                const std::string junk(wr(0, 50), 'j');
                const bool faults = sim::faults_on();
                sim::faults_enabled(false);
                write_file(path, junk + b + "tail");
                sim::faults_enabled(faults);
                const int fd = ::open(path.c_str(), O_RDONLY);
                if (fd < 0)   // no descriptor left
                {
                    hurt(EAGAIN);
                    co_await g->ticker->turn(w);
                    continue;
                }
                r = co_await s.async_sendfile(fd, off_t(junk.size()), k);
                ::close(fd);
            }
            else if (how < 4)
                r = co_await s.async_write_exact(std::span<const char>(b.data(), b.size()));
            else
            {
                auto x = co_await s.async_write(std::span<const char>(b.data(), b.size()));
                if (!x && x.error().value == EAGAIN)
                {
                    co_await g->ticker->turn(w);
                    continue;
                }
                if (x)
                {
                    SIM_CHECK(*x > 0 && u64(*x) <= k, "tls:result", "%s: a write of %llu bytes returned %d", what, (unsigned long long)k, *x);
                    done = u64(*x);
                }
                else
                    r = std::unexpected(x.error());
            }
            if (!r)
            {
                const int e = r.error().value;
                hurt(e);
                SIM_CHECK(excused(*peer_gone), "tls:error", "%s: writing at %llu of %llu failed with error %d, nothing was wrong", what, (unsigned long long)at, (unsigned long long)n, e);
                SIM_CHECK(plausible(e), "tls:error", "%s: writing failed with error %d", what, e);
                co_return false;
            }
            at += done;
            if (wc(0.1)) co_await w.async_sleep(std::chrono::nanoseconds(wr(1, 300'000)));
        }
        co_return true;
    }
    // n bytes of a stream, or with n == ~0 nothing but the end.
    Task<bool> take(Worker& w, TlsStream& s, u64 stream, u64 n, const bool* peer_gone, const char* what, u64 from = 0)
    {
        const bool to_end = n == ~0ull;
        u64 at = 0;
        while (at < n)
        {
            const u64 k = to_end ? wr(1, 20) : std::min<u64>(n - at, some_size(1, 6000));
            std::string b(k, 0);
            auto r = co_await s.async_read(std::span<char>(b.data(), b.size()));
            if (!r && r.error().value == EAGAIN)
            {
                co_await g->ticker->turn(w);
                continue;
            }
            if (r && *r == 0)
            {
                SIM_CHECK(excused(*peer_gone), "tls:eof", "%s: the end of the stream was reported at %llu though the peer neither closed nor failed", what, (unsigned long long)(from + at));
                co_return to_end;
            }
            if (!r)
            {
                const int e = r.error().value;
                SIM_CHECK(excused(false), "tls:error", "%s: reading at %llu failed with error %d, nothing was wrong%s", what, (unsigned long long)(from + at), e, to_end ? " (the peer closed after its last byte)" : "");
                SIM_CHECK(plausible(e), "tls:error", "%s: reading failed with error %d", what, e);
                co_return false;
            }
            SIM_CHECK(*r > 0 && u64(*r) <= k, "tls:result", "%s: a read of %llu bytes returned %d", what, (unsigned long long)k, *r);
            SIM_CHECK(!to_end, "tls:extra", "%s: %d bytes more than the peer sent", what, *r);
            check_stream(stream, from + at, b.data(), u64(*r), "tls:content", what);
            at += u64(*r);
        }
        co_return true;
    }
    Task<bool> take_raw(Worker& w, TlsStream& s, char* p, u64 n, const char* what)
    {
        u64 at = 0;
        while (at < n)
        {
            auto r = co_await s.async_read(std::span<char>(p + at, n - at));
            if (!r && r.error().value == EAGAIN)
            {
                co_await g->ticker->turn(w);
                continue;
            }
            if (!r || *r == 0)
            {
                SIM_CHECK(excused(false), "tls:error", "%s: reading the first bytes gave %s %d", what, r ? "end" : "error", r ? 0 : r.error().value);
                co_return false;
            }
            at += u64(*r);
        }
        co_return true;
    }
    void gone(bool* b)
    {
        Quiet q;
        *b = true;
    }
    DetachedTask writer(Worker& w, TlsStream& s, u64 stream, u64 n, const bool* peer_gone, const char* what, int* res)
    {
        Frame f;
        co_await SwitchToWorker(w);
        const bool ok = co_await give(w, s, stream, n, peer_gone, what);
        if (!ok) ::shutdown(s.fd(), SHUT_RDWR);   // or the reader, and the peer, would wait for ever
        Quiet q;
        *res = ok ? 1 : 2;
    }
    int peek(const int* p)
    {
        Quiet q;
        return *p;
    }
    // Sends `out` bytes of stream `os` and receives `in` of `is`, one after the other or at once.
    Task<bool> exchange(Worker& w, TlsStream& s, bool send_first, bool duplex, u64 os, u64 out, u64 is, u64 in, const bool* peer_gone, const char* what)
    {
        if (duplex)
        {
            int res = 0;
            writer(w, s, os, out, peer_gone, what, &res).detach();
            bool ok = co_await take(w, s, is, in, peer_gone, what);
            while (!peek(&res))
                if (!co_await w.async_sleep(std::chrono::microseconds(100))) co_await g->ticker->turn(w);
            co_return ok && peek(&res) == 1;
        }
        if (send_first)
        {
            if (!co_await give(w, s, os, out, peer_gone, what)) co_return false;
            co_return co_await take(w, s, is, in, peer_gone, what);
        }
        if (!co_await take(w, s, is, in, peer_gone, what)) co_return false;
        co_return co_await give(w, s, os, out, peer_gone, what);
    }
    // Ends a side. `first`: without waiting for the peer. mine is set before the peer can notice.
    DetachedTask nap(Worker& w)
    {
        Frame f;
        (void)co_await w.async_sleep(std::chrono::microseconds(1));
    }
    Task<void> end_side(Worker& w, TlsStream& s, int closing, bool server, bool ok, bool* mine, const bool* peers, const char* what)
    {
        const int me = server ? 1 : 0;
        const bool drops = closing == 3 + me;
        if (!ok || drops)
        {
            gone(mine);
            if (drops) co_return;
        }
        else if (closing != me && closing != 2)
        {
            // the peer goes first: its end is the end of the stream
            co_await take(w, s, 0, ~0ull, peers, what);
        }
        gone(mine);
        if (wc(0.3))
        {
            auto r = co_await s.async_shutdown();
            if (!r)
                SIM_CHECK(excused(closing > 2 || !ok), "tls:error", "%s: shutting down failed with error %d", what, r.error().value);
            else
                SIM_CHECK(excused(*peers), "tls:shutdown", "%s: shutting down ended though the peer has not ended its side", what);
        }
        if (wc(0.15))
        {
            // closing while the submission queue is full
            hurt(EAGAIN);
            for (u64 i = 0; i < 256; ++i) nap(w).detach();
            sim::probe("closed with a full submission queue");
        }
        const u64 t0 = sim::now();
        auto r = co_await s.async_close();
        (void)r;
        SIM_CHECK(sim::now() - t0 < 300 * sec, "tls:close", "%s: closing took %llu s", what, (unsigned long long)((sim::now() - t0) / sec));
    }
    DetachedTask handle(Worker& w, TlsStream in)
    {
        Frame f;
        co_await SwitchToWorker(w);
        {
            TlsStream s(std::move(in));
            SIM_CHECK(s.is_handshake_done() && s.is_ktls_active() && s.get_version().starts_with("TLS") && !s.get_cipher().empty(), "tls:state", "an accepted stream is not ready");
            Header h{};
            if (co_await take_raw(w, s, (char*)&h, sizeof h, "server"))
            {
                Conn* c;
                {
                    Quiet q;
                    auto it = g->conns.find(h.id);
                    SIM_CHECK(it != g->conns.end() && it->second.up == h.up && it->second.down == h.down && it->second.port == h.port, "tls:content", "the first bytes of a connection are not what its peer sent");
                    c = &it->second;
                    SIM_CHECK(!c->accepted, "tls:accept", "a connection was accepted twice");
                    c->accepted = true;
                    SIM_CHECK(c->should, "tls:accept", "a connection was accepted whose client refused the server");
                    SIM_CHECK(s.peer_port() == h.port && s.peer_ip() == "127.0.0.1", "tls:peer", "the accepted peer is reported as %s port %u, it is port %u", s.peer_ip().c_str(), unsigned(s.peer_port()), unsigned(h.port));
                }
                const bool ok = co_await exchange(w, s, false, h.duplex, 2 * h.id + 1, h.down, 2 * h.id, h.up, &c->client_gone, "server");
                if (ok)
                {
                    {
                        Quiet q;
                        c->up_done = true;
                    }
                    if (h.up + h.down) sim::note_nontrivial();
                }
                co_await end_side(w, s, h.closing, true, ok, &c->server_gone, &c->client_gone, "server");
            }
            else if (wc(0.5))
                (void)co_await s.async_close();
        }
        g->handlers.fetch_sub(1);
    }
    DetachedTask accept_loop(Worker& w, TlsListener* l)
    {
        Frame f;
        co_await SwitchToWorker(w);
        for (;;)
        {
            auto r = co_await l->accept();
            {
                Quiet q;
                if (g->stopping) break;
            }
            if (!r)
            {
                co_await g->ticker->turn(w);
                continue;
            }
            {
                Quiet q;
                g->streams++;
            }
            g->handlers.fetch_add(1);
            handle(w, std::move(*r)).detach();
        }
        g->loops.fetch_sub(1);
    }
    // The worker must go on whatever peers do.
    DetachedTask heartbeat(Worker& w)
    {
        Frame f;
        co_await SwitchToWorker(w);
        u64 last = sim::now();
        while (!g->end.load())
        {
            if (!co_await w.async_sleep(std::chrono::milliseconds(20))) co_await g->ticker->turn(w);
            const u64 t = sim::now();
            SIM_CHECK(t - last < 2500 * ms, "tls:stall", "the worker did nothing for %llu ms", (unsigned long long)((t - last) / ms));
            last = t;
        }
        g->beats.fetch_sub(1);
    }
    Header header_of(Conn* c)
    {
        Quiet q;
        Header h;
        memset(&h, 0, sizeof h);
        h.id = c->id;
        h.up = c->up;
        h.down = c->down;
        h.port = c->port;
        h.closing = u8(c->closing);
        h.duplex = c->duplex;
        return h;
    }
    Task<void> use(Worker& w, TlsStream& in, Conn* c)
    {
        SIM_CHECK(in.is_handshake_done() && in.is_ktls_active() && in.get_version().starts_with("TLS") && !in.get_cipher().empty(), "tls:state", "a connected stream is not ready");
        {
            Quiet q;
            SIM_CHECK(c->should, "tls:untrusted", "a client accepted a server it must refuse");
        }
        TlsStream s(std::move(in));
        auto again = co_await s.async_handshake("other.name");
        SIM_CHECK(again.has_value(), "tls:state", "a handshake on a finished stream failed");
        sockaddr_in me{};
        socklen_t ml = sizeof me;
        ::getsockname(s.fd(), (sockaddr*)&me, &ml);
        {
            Quiet q;
            c->port = ntohs(me.sin_port);
        }
        const Header h = header_of(c);
        auto wres = co_await s.async_write_exact(std::span<const char>((const char*)&h, sizeof h));
        bool ok = wres.has_value();
        if (!ok)
        {
            hurt(wres.error().value);
            SIM_CHECK(!g->clean, "tls:error", "sending the first bytes failed with error %d", wres.error().value);
        }
        else
            ok = co_await exchange(w, s, true, h.duplex, 2 * h.id, h.up, 2 * h.id + 1, h.down, &c->server_gone, "client");
        if (ok)
        {
            Quiet q;
            c->down_done = true;
        }
        co_await end_side(w, s, h.closing, false, ok, &c->client_gone, &c->server_gone, "client");
    }
    Task<void> client(Worker& w, TlsContext& ctx, Conn* c, std::string host, u16 port, bool by_hand)
    {
        Frame f;
        co_await SwitchToWorker(w);
        kio::Error err{};
        for (int tries = 0;; ++tries)
        {
            bool failed = false;
            if (!by_hand)
            {
                TlsConnector con(w, ctx);
                auto s = co_await con.connect(host, port);
                if (s)
                    co_await use(w, *s, c);
                else
                {
                    failed = true;
                    err = s.error();
                }
            }
            else
            {
                auto addr = kio::net::resolve_address(host, port);
                auto fd = kio::net::create_tcp_fd(AF_INET);
                if (!fd)
                {
                    failed = true;
                    err = fd.error();
                }
                else
                {
                    Socket sock(*fd);
                    auto r = co_await w.async_connect(sock.get(), addr->as_sockaddr(), addr->addrlen);
                    if (!r)
                    {
                        failed = true;
                        err = r.error();
                    }
                    else
                    {
                        TlsStream s(w, std::move(sock), ctx, TlsRole::Client);
                        SIM_CHECK(!s.is_handshake_done() && !s.is_ktls_active(), "tls:state", "a new stream claims to be ready");
                        auto hr = co_await s.async_handshake(host);
                        if (hr)
                            co_await use(w, s, c);
                        else
                        {
                            failed = true;
                            err = hr.error();
                            auto again = co_await s.async_handshake(host);
                            SIM_CHECK(!again, "tls:retry", "a handshake failed with error %d, repeating it reported success", err.value);
                            SIM_CHECK(!s.is_ktls_active() && !s.is_handshake_done(), "tls:state", "a stream whose handshake failed claims to be ready");
                            const u64 t0 = sim::now();
                            (void)co_await s.async_close();
                            SIM_CHECK(sim::now() - t0 < 2 * sec, "tls:close", "closing a stream without a handshake took %llu ms", (unsigned long long)((sim::now() - t0) / ms));
                        }
                    }
                }
            }
            if (!failed) break;
            if (err.value == EAGAIN && tries < 20)
            {
                hurt(EAGAIN);
                co_await g->ticker->turn(w);
                continue;
            }
            Quiet q;
            SIM_CHECK(err.value != 0, "tls:error", "a failed connection reports error 0");
            SIM_CHECK(!c->should || !g->clean, "tls:refused", "connecting failed (category %d, value %d), nothing was wrong", int(err.category), err.value);
            c->client_gone = true;
            break;
        }
        g->clients.fetch_sub(1);
    }
    // A client that is no TLS client, or leaves in the middle.
    void foreign_client(u64 how)
    {
        const int p = sim::peer_connect(kPort);
        if (p < 0) return;
        char b[64];
        switch (how)
        {
            case 0: break;
            case 1: sim::peer_reset(p); return;
            case 2: sim::sleep_ns(wr(1, 4000) * ms); break;
            case 3:
            {
                std::string junk(wr(4, 300), 0);
                for (auto& x: junk) x = char(wr(0, 255));
                junk[0] = char(wr(16, 255));
                sim::peer_send(p, junk.data(), junk.size());
                break;
            }
            default:
            {
                // the beginning of a handshake
                const std::string hello = std::string("\1\0\0\20", 4) + "sni=x\nmin=0\npad\n";
                sim::peer_send(p, hello.data(), wr(1, hello.size() - 1));
                if (wc(0.5)) sim::sleep_ns(wr(1, 4000) * ms);
                if (wc(0.5))
                {
                    sim::peer_reset(p);
                    return;
                }
                sim::peer_shutdown_write(p);
            }
        }
        if (how >= 3)
            for (;;)
            {
                const long r = sim::peer_recv(p, b, sizeof b, 120 * sec);
                SIM_CHECK(r != -EAGAIN, "tls:stuck", "a connection whose handshake cannot succeed is not closed");
                if (r <= 0) break;
            }
        sim::peer_close(p);
    }
    // A server that is none.
    void foreign_server(int lh, u64 how)
    {
        const int p = sim::peer_accept(lh);
        if (p < 0) return;
        char b[256];
        if (how != 1) (void)sim::peer_recv(p, b, wr(1, 200), 100 * ms);
        switch (how)
        {
            case 0:
            {
                const std::string junk(wr(4, 60), char(wr(16, 255)));   // always fits
                sim::peer_send(p, junk.data(), junk.size());
                break;
            }
            case 1: sim::sleep_ns(wr(0, 3000) * ms); break;
            case 2: sim::peer_reset(p); return;
            default:
            {
                const std::string alert("\5\0\0\0", 4);
                sim::peer_send(p, alert.data(), wr(1, 4));
            }
        }
        sim::peer_close(p);
    }
    void some_files()
    {
        write_file("a.crt", "name=localhost\nissuer=ca1\nkey=k1\n");
        write_file("b.crt", "name=127.0.0.1\nissuer=ca1\nkey=k1\n");
        write_file("c.crt", "name=elsewhere\nissuer=ca1\nkey=k1\n");
        write_file("d.crt", "name=localhost\nissuer=self\nkey=k1\n");
        write_file("k1.key", "key=k1\n");
        write_file("k2.key", "key=k2\n");
        write_file("ca1.crt", "name=ca1\n");
        write_file("ca2.crt", "name=ca2\n");
        write_file("junk", "junk");
    }
    // Contexts that must not be made.
    void bad_contexts()
    {
        for (u64 i = 0, n = wr(0, 3); i < n; ++i)
        {
            TlsConfig c;
            bool server = true;
            c.cert_path = "a.crt";
            c.key_path = "k1.key";
            switch (wr(0, 8))
            {
                case 0: c.cert_path = "missing.crt"; break;
                case 1: c.key_path = "missing.key"; break;
                case 2: c.key_path = "k2.key"; break;
                case 3: c.cert_path = ""; break;
                case 4: c.key_path = ""; break;
                case 5: c.ca_cert_path = "missing.crt"; break;
                case 6: c.cipher_suites = "none"; break;
                case 7: c.ciphersuites_tls13 = "none"; break;
                default:
                    server = false;
                    c.ca_cert_path = "junk";
            }
            auto r = server ? TlsContext::make_server(c) : TlsContext::make_client(c);
            SIM_CHECK(!r, "tls:context", "a context was made from an unusable configuration");
        }
    }
}  // namespace

SIM_SCENARIO(tls)
{
    setup(0.05);
    sim::set_bad_close_check(true);
    World world;
    g = &world;
    tls_standin::counts() = {};
    auto& kn = tls_standin::knobs();
    kn = {};
    some_files();
    bad_contexts();
    const int before = sim::open_fds();
    WorkerConfig cfg{};
    cfg.uring_queue_depth = 1u << wr(6, 8);
    cfg.default_op_slots = wr(64, 128);
    auto* ticker = new Ticker;
    world.ticker = ticker;
    auto* pool = new IOPool(wr(1, 3), cfg);
    world.clean = wc(0.6);
    kn.v13 = wc(0.5);
    kn.pad = wc(0.5) ? wr(0, 50) : wr(50, 5000);
    if (wc(0.2)) kn.p_ahead = 0.5;
    if (!world.clean && wc(0.5)) kn.p_no_ktls = 0.3;
    // what the server shows and what its clients want
    static const char* const certs[] = {"a.crt", "b.crt", "c.crt", "d.crt"};
    const u64 cert = wc(0.7) ? wr(0, 1) : wr(0, 3);
    std::optional<TlsContext> sctx;
    {
        TlsConfig c;
        c.cert_path = certs[cert];
        c.key_path = "k1.key";
        c.min_version = wc(0.2) ? kio::tls::TlsVersion::TLS_1_3 : kio::tls::TlsVersion::TLS_1_2;
        if (wc(0.3)) c.alpn_protocols = {"h2", "kio"};
        auto r = TlsContext::make_server(c);
        SIM_CHECK(r.has_value(), "tls:context", "making a server context failed");
        sctx.emplace(std::move(*r));
        if (c.min_version == kio::tls::TlsVersion::TLS_1_3 && !kn.v13) kn.v13 = true;
    }
    struct Cl
    {
        std::optional<TlsContext> ctx;
        bool trusts, verifies, v13;
    };
    std::vector<Cl> kinds(3);
    for (auto& k: kinds)
    {
        TlsConfig c;
        k.verifies = wc(0.8);
        const u64 ca = wc(0.8) ? 1 : wr(0, 2);
        k.v13 = wc(0.2);
        c.verify_mode = k.verifies ? SSL_VERIFY_PEER : SSL_VERIFY_NONE;
        if (ca) c.ca_cert_path = ca == 1 ? "ca1.crt" : "ca2.crt";
        c.min_version = k.v13 ? kio::tls::TlsVersion::TLS_1_3 : kio::tls::TlsVersion::TLS_1_2;
        k.trusts = ca == 1 && cert != 3;
        auto r = TlsContext::make_client(c);
        SIM_CHECK(r.has_value(), "tls:context", "making a client context failed");
        k.ctx.emplace(std::move(*r));
    }
    if (sim::chance(Conf, 0.4)) sim::set_fault(sim::F_ShortRead, 0.2);
    if (sim::chance(Conf, 0.4)) sim::set_fault(sim::F_ShortWrite, 0.2);
    if (sim::chance(Conf, 0.4)) sim::set_fault(sim::F_Fragment, 0.5);
    if (sim::chance(Conf, 0.2)) sim::knobs().sock_buf = size_t(wr(64, 2000));
    std::optional<TlsListener> lst;
    Worker* lw = pool->get_worker(wr(0, pool->num_workers() - 1));
    {
        kio::tls::ListenerConfig lc;
        lc.port = kPort;
        lc.bind_address = wc(0.5) ? "127.0.0.1" : "0.0.0.0";
        lc.reuse_port = wc(0.5);
        if (sim::chance(Conf, 0.2))
        {
            sim::set_fault(sim::F_SyscallFail, 0.3);
            const int fds = sim::open_fds();
            auto r = TlsListener::bind(*lw, lc, *sctx);
            sim::set_fault(sim::F_SyscallFail, 0);
            if (!r)
            {
                SIM_CHECK(r.error() == kio::Error::from_errno(sim::last_errno()), "tls:error", "binding failed with error %d, reported as %d", sim::last_errno(), r.error().value);
                SIM_CHECK(sim::open_fds() == fds, "tls:leak", "a failed listener left a descriptor open");
            }
            else
                lst.emplace(std::move(*r));
        }
        if (!lst)
        {
            auto r = TlsListener::bind(*lw, lc, *sctx);
            SIM_CHECK(r.has_value(), "tls:bind", "binding failed with error %d", r ? 0 : r.error().value);
            lst.emplace(std::move(*r));
        }
    }
    if (!world.clean)
    {
        if (sim::chance(Conf, 0.4)) sim::set_fault(sim::F_ConnReset, 0.01);
        if (sim::chance(Conf, 0.3)) sim::set_fault(sim::F_ConnRefused, 0.1);
        if (sim::chance(Conf, 0.3)) sim::set_fault(sim::F_AcceptFail, 0.1);
        if (sim::chance(Conf, 0.2)) sim::set_fault(sim::F_Emfile, 0.05);
    }
    for (u64 i = 0; i < pool->num_workers(); ++i)
    {
        world.beats.fetch_add(1);
        heartbeat(*pool->get_worker(i)).detach();
    }
    const u64 nloops = wr(1, 3);
    for (u64 i = 0; i < nloops; ++i)
    {
        world.loops.fetch_add(1);
        accept_loop(*lw, &*lst).detach();
    }
    std::vector<std::thread> th;
    const u64 nc = wr(1, 6), nf = wc(0.4) ? wr(1, 4) : 0, ns = wc(0.2) ? 1 : 0;
    th.reserve(nc + nf + ns * 2);
    for (u64 i = 0; i < nc; ++i)
    {
        Conn* c;
        {
            Quiet q;
            c = &world.conns[i];
        }
        c->id = i;
        c->up = some_size(0, 12'000);
        c->down = some_size(0, 12'000);
        c->duplex = wc(0.4);
        c->closing = int(wr(0, 4));
        Cl& k = kinds[wr(0, 2)];
        const std::string host = (cert == 1) == wc(0.8) ? "127.0.0.1" : "localhost";
        const bool name_ok = cert == 0 ? host == "localhost" : cert == 1 ? host == "127.0.0.1" : cert == 3 && host == "localhost";
        c->should = (!k.verifies || (k.trusts && name_ok)) && (kn.v13 || !k.v13);
        Worker* w = pool->get_worker(wr(0, pool->num_workers() - 1));
        world.clients.fetch_add(1);
        const bool by_hand = wc(0.5);
        th.emplace_back([w, &k, c, host, by_hand] { kio::SyncWait(client(*w, *k.ctx, c, host, kPort, by_hand)); });
    }
    for (u64 i = 0; i < nf; ++i)
    {
        const u64 how = wr(0, 4);
        th.emplace_back([how] { foreign_client(how); });
    }
    if (ns)
    {
        Conn* c;
        {
            Quiet q;
            c = &world.conns[1000];
        }
        c->should = false;
        const int lh = sim::peer_listen(kForeign);
        const u64 how = wr(0, 3);
        Worker* w = pool->get_worker(wr(0, pool->num_workers() - 1));
        Cl& k = kinds[0];
        const bool by_hand = wc(0.5);
        world.clients.fetch_add(1);
        sim::set_fault(sim::F_ConnRefused, 0);
        sim::set_fault(sim::F_Emfile, 0);
        th.emplace_back([lh, how] { foreign_server(lh, how); });
        th.emplace_back([w, &k, c, by_hand] { kio::SyncWait(client(*w, *k.ctx, c, "localhost", kForeign, by_hand)); });
    }
    for (auto& t: th) t.join();
    const u64 t0 = sim::now();
    auto coming = [&] {
        // a client may have come and gone before its connection is accepted
        Quiet q;
        if (world.clean)
            for (auto& [id, c]: world.conns)
                if (c.should && !c.accepted) return true;
        return false;
    };
    while (world.handlers.load() != 0 || (coming() && sim::now() - t0 < 10 * sec))
    {
        SIM_CHECK(sim::now() - t0 < 300 * sec, "tls:stuck", "%llu connections are served though their peers are gone", (unsigned long long)world.handlers.load());
        sim::sleep_ns(500'000);
    }
    if (world.clean)
    {
        Quiet q;
        for (auto& [id, c]: world.conns)
            if (c.should) SIM_CHECK(c.accepted && c.up_done && c.down_done, "tls:incomplete", "connection %llu did not carry all its bytes", (unsigned long long)id);
    }
    // the accept loops end at the next connection
    {
        Quiet q;
        world.stopping = true;
    }
    sim::set_fault(sim::F_ConnRefused, 0);
    const u64 t1 = sim::now();
    while (world.loops.load() != 0)
    {
        SIM_CHECK(sim::now() - t1 < 300 * sec, "tls:stuck", "an accept does not end");
        const int p = sim::peer_connect(kPort);
        if (p >= 0) sim::peer_close(p);
        sim::sleep_ns(5 * ms);
    }
    world.end.store(true);
    while (world.beats.load() != 0) sim::sleep_ns(5 * ms);
    pool->stop();
    delete pool;
    lst.reset();
    kinds.clear();
    sctx.reset();
    delete ticker;
    SIM_CHECK(sim::open_fds() == before, "tls:leak", "%d descriptors leaked", sim::open_fds() - before);
    SIM_CHECK(Frame::live == 0, "tls:frames", "%lld coroutines left", (long long)Frame::live);
    SIM_CHECK(tls_standin::counts().live_ssl == 0 && tls_standin::counts().live_ctx == 0, "tls:leak", "%llu TLS connections and %llu contexts are left", (unsigned long long)tls_standin::counts().live_ssl,
              (unsigned long long)tls_standin::counts().live_ctx);
}

// Workers stop while connections are being set up: what is reported by then is true, nothing is reported after it.
namespace
{
    struct StopWorld
    {
        std::atomic<u64> started{0};
        std::atomic<bool> stopped{false};
        u64 ok = 0, failed = 0;
    };
    StopWorld* gs;
    DetachedTask stop_client(Worker& w, TlsContext& ctx, u16 port, bool real)
    {
        co_await SwitchToWorker(w);
        auto fd = kio::net::create_tcp_fd(AF_INET);
        if (!fd) co_return;
        Socket sock(*fd);
        auto addr = kio::net::resolve_address("localhost", port);
        auto r = co_await w.async_connect(sock.get(), addr->as_sockaddr(), addr->addrlen);
        if (!r) co_return;
        TlsStream s(w, std::move(sock), ctx, TlsRole::Client);
        auto h = co_await s.async_handshake("localhost");
        SIM_CHECK(!gs->stopped.load(), "tls:stop", "a handshake ended after its worker had stopped");
        SIM_CHECK(h.has_value() == (s.is_handshake_done() && s.is_ktls_active()), "tls:state", "a handshake that %s leaves a stream that is %sready", h ? "succeeded" : "failed", h ? "not " : "");
        if (h)
        {
            SIM_CHECK(real, "tls:untrusted", "a handshake with a peer that never finished it was reported as done");
            sim::note_nontrivial();
        }
        else
            SIM_CHECK(h.error().value != 0, "tls:error", "a failed handshake reports error 0");
        Quiet q;
        ++(h ? gs->ok : gs->failed);
    }
    DetachedTask stop_server(Worker& w, TlsListener* l)
    {
        co_await SwitchToWorker(w);
        for (;;)
        {
            auto r = co_await l->accept();
            SIM_CHECK(!gs->stopped.load(), "tls:stop", "an accept ended after its worker had stopped");
            if (w.get_stop_token().stop_requested()) co_return;
            if (!r) continue;
            SIM_CHECK(r->is_handshake_done() && r->is_ktls_active(), "tls:state", "an accepted stream is not ready");
            sim::note_nontrivial();
        }
    }
}  // namespace

SIM_SCENARIO(tls_stop)
{
    setup(0.05);
    StopWorld world;
    gs = &world;
    tls_standin::counts() = {};
    auto& kn = tls_standin::knobs();
    kn = {};
    kn.v13 = wc(0.5);
    kn.pad = wr(0, 2000);
    if (wc(0.3)) kn.p_no_ktls = 0.3;
    some_files();
    TlsConfig sc, cc;
    sc.cert_path = "a.crt";
    sc.key_path = "k1.key";
    cc.ca_cert_path = "ca1.crt";
    auto sctx = TlsContext::make_server(sc), cctx = TlsContext::make_client(cc);
    SIM_CHECK(sctx.has_value() && cctx.has_value(), "tls:context", "making contexts failed");
    WorkerConfig cfg{};
    cfg.uring_queue_depth = 64;
    cfg.default_op_slots = 64;
    auto* pool = new IOPool(wr(1, 2), cfg);
    auto any = [&]() -> Worker& { return *pool->get_worker(wr(0, pool->num_workers() - 1)); };
    if (sim::chance(Conf, 0.4)) sim::set_fault(sim::F_Fragment, 0.5);
    if (sim::chance(Conf, 0.3)) sim::knobs().sock_buf = size_t(wr(64, 500));
    std::optional<TlsListener> lst;
    if (wc(0.7))
    {
        kio::tls::ListenerConfig lc;
        lc.port = kPort;
        Worker& w = any();
        auto r = TlsListener::bind(w, lc, *sctx);
        SIM_CHECK(r.has_value(), "tls:bind", "binding failed");
        lst.emplace(std::move(*r));
        for (u64 i = 0, n = wr(1, 3); i < n; ++i) stop_server(w, &*lst).detach();
    }
    const int lh = sim::peer_listen(kForeign);
    const u64 nc = wr(1, 5);
    std::vector<std::thread> th;
    th.reserve(nc);
    for (u64 i = 0; i < nc; ++i)
    {
        const bool real = lst && wc(0.6);
        stop_client(any(), *cctx, real ? kPort : kForeign, real).detach();
        if (real) continue;
        const u64 delay = wr(0, 2 * ms), n = wr(1, 30);
        th.emplace_back([lh, delay, n] {
            const int p = sim::peer_accept(lh);
            if (p < 0) return;
            sim::sleep_ns(delay);
            // the beginning of an answer
            const std::string h = std::string("\2\0\2\0", 4) + "version=772\nname=localhost\nissuer=ca1\nkey=k1\n";
            for (u64 k = 0; k < n; ++k)
            {
                if (sim::peer_send(p, h.data() + k, 1) < 0) break;
                if (sim::chance(Env, 0.3)) sim::sleep_ns(sim::decide(Env, 20'000));
            }
            char b[4096];
            while (sim::peer_recv(p, b, sizeof b, 20 * ms) > 0) {}
            sim::peer_close(p);
        });
    }
    sim::sleep_ns(wr(0, 3) ? wr(0, 300'000) : wr(0, 20 * ms));
    pool->stop();
    world.stopped.store(true);
    delete pool;
    for (u64 i = 0; i < nc; ++i)
    {
        // peers whose client never came
        const int p = sim::peer_connect(kForeign);
        if (p >= 0) sim::peer_close(p);
    }
    for (auto& t: th) t.join();
    lst.reset();
}
