// C19: BytesMut as a receive buffer.
#include "net_common.h"

#include "kio/core/bytes_mut.h"
#include "kio/sync/sync_wait.h"

using namespace scen;
using kio::BytesMut;

namespace
{
    // What is readable, and what a filler may use.
    struct Model
    {
        u64 id;
        u64 committed = 0, consumed = 0;   // positions in stream `id`
    };
    void check(const BytesMut& b, BytesMut* w, const Model& m)
    {
        const auto r = b.readable_span();
        SIM_CHECK(r.size() == m.committed - m.consumed, "bytes:size", "%zu bytes readable, %llu committed and not consumed", r.size(), (unsigned long long)(m.committed - m.consumed));
        SIM_CHECK(b.remaining() == r.size() && b.is_empty() == r.empty(), "bytes:size", "remaining %zu, is_empty %d with %zu readable", b.remaining(), int(b.is_empty()), r.size());
        if (!r.empty())
        {
            SIM_CHECK(sim::addressable(r.data(), r.size()), "bytes:memory", "the readable bytes are not in memory of the buffer");
            check_stream(m.id, m.consumed, r.data(), r.size(), "bytes:content", "readable bytes");
        }
        if (w)
        {
            const auto s = w->writable_span();
            SIM_CHECK(w->writable() == s.size(), "bytes:size", "writable %zu, the span has %zu", w->writable(), s.size());
            if (!s.empty()) SIM_CHECK(sim::addressable(s.data(), s.size()), "bytes:memory", "the writable bytes are not in memory of the buffer");
            SIM_CHECK(b.consumed() + r.size() + s.size() <= b.capacity(), "bytes:size", "more than the capacity in use");
            if (!s.empty() && !r.empty()) SIM_CHECK(s.data() >= r.data() + r.size() || s.data() + s.size() <= r.data(), "bytes:overlap", "readable and writable bytes overlap");
        }
    }
    u64 amount(u64 hi)
    {
        if (!hi) return 0;
        switch (wr(0, 4))
        {
            case 0: return hi;
            case 1: return wr(0, std::min<u64>(hi, 3));
            case 2: return hi - wr(0, std::min<u64>(hi, 3));
            default: return wr(0, hi);
        }
    }
    u64 some_reserve() { return wc(0.02) ? wr(1, 20000) : some_size(0, wc(0.1) ? 9000 : 1500); }
    void must_throw(const char* what, const std::function<void()>& f)
    {
        try
        {
            f();
        }
        catch (const std::exception&)
        {
            return;
        }
        sim::violation("bytes:no-throw", "%s is accepted", what);
    }
    void fill(BytesMut& b, Model& m, u64 n)
    {
        const auto s = b.writable_span();
        {
            Quiet q;
            for (u64 i = 0; i < n; ++i) s[i] = stream_byte(m.id, m.committed + i);
            // a receive may scribble over the rest of the space it was given
            for (u64 i = n; i < std::min<u64>(s.size(), n + 64); ++i) s[i] = char(0xEE);
        }
        b.commit_write(n);
        m.committed += n;
    }
    void history(u64 id, u64 ops)
    {
        const bool oom = sim::chance(Conf, 0.3);
        if (oom) sim::set_fault(sim::F_AllocFail, 0.3);
        BytesMut b = wc(0.3) ? BytesMut() : BytesMut(some_reserve());
        Model m{id};
        BytesMut* p = &b;
        std::optional<BytesMut> other;
        check(b, &b, m);
        for (u64 k = 0; k < ops; ++k)
        {
            switch (wr(0, 14))
            {
                case 0:
                case 1:
                case 2:
                {
                    const u64 n = some_reserve();
                    sim::alloc_fail_scope(oom);
                    try
                    {
                        p->reserve(n);
                        sim::alloc_fail_scope(false);
                        SIM_CHECK(p->writable() >= n, "bytes:reserve", "%llu bytes reserved, %zu writable", (unsigned long long)n, p->writable());
                    }
                    catch (const std::bad_alloc&)
                    {
                        sim::alloc_fail_scope(false);
                        SIM_CHECK(oom, "bytes:oom", "no memory");
                        sim::probe("allocation failed in reserve");
                    }
                    break;
                }
                case 3:
                case 4:
                case 5: fill(*p, m, amount(p->writable())); break;
                case 6:
                case 7:
                {
                    const u64 n = amount(p->remaining());
                    p->advance(n);
                    m.consumed += n;
                    break;
                }
                case 8:
                {
                    const u64 n = amount(p->remaining());
                    const auto s = p->peek(n);
                    SIM_CHECK(s.size() == n && (!n || s.data() == p->readable_span().data()), "bytes:peek", "peeking %llu bytes gives %zu", (unsigned long long)n, s.size());
                    break;
                }
                case 9:
                    if (wc(0.5) || p->should_compact()) p->compact();
                    SIM_CHECK(p->consumed() == 0 || !p->should_compact(), "bytes:compact", "compaction is still due");
                    break;
                case 10:
                {
                    const u64 n = some_reserve();
                    const std::string d = stream_data(m.id, m.committed, n);
                    sim::alloc_fail_scope(oom);
                    bool ok = true;
                    try
                    {
                        p->extend_from_slice(std::span<const char>(d.data(), d.size()));
                    }
                    catch (const std::bad_alloc&)
                    {
                        ok = false;
                        SIM_CHECK(oom, "bytes:oom", "no memory");
                    }
                    sim::alloc_fail_scope(false);
                    if (ok) m.committed += n;
                    break;
                }
                case 11:
                {
                    const u64 n = wc(0.5) ? 1 : wc(0.5) ? ~0ull - wr(0, 100) : wr(1, ~0ull - 1);
                    BytesMut& x = *p;
                    if (p->remaining() + n > n) must_throw("consuming more than is there", [&x, n] { x.advance(x.remaining() + n); });
                    if (p->remaining() + n > n) must_throw("peeking at more than is there", [&x, n] { (void)x.peek(x.remaining() + n); });
                    if (p->writable() + n > n) must_throw("committing more than was writable", [&x, n] { x.commit_write(x.writable() + n); });
                    if (n > 1ull << 62) must_throw("committing more than was writable", [&x, n] { x.commit_write(n); });
                    if (n > 1ull << 62 && wc(0.3)) must_throw("reserving an impossible size", [&x, n] { x.reserve(n); });
                    break;
                }
                case 12:
                    if (wc(0.2))
                    {
                        p->clear();
                        m.consumed = m.committed;
                        SIM_CHECK(p->is_empty(), "bytes:clear", "bytes left after clear");
                    }
                    break;
                case 13:
                {
                    // moved: the content goes along, the old object is empty and usable
                    if (!wc(0.4)) break;
                    BytesMut* from = p;
                    if (p == &b)
                    {
                        if (other && wc(0.5))
                            *other = std::move(b);
                        else
                            other.emplace(std::move(b));
                        p = &*other;
                    }
                    else
                    {
                        b = std::move(*other);
                        p = &b;
                    }
                    Model none{id};
                    check(*from, from, none);
                    if (wc(0.5))
                    {
                        none.id = id + 77;
                        from->reserve(wr(1, 100));
                        fill(*from, none, amount(from->writable()));
                        check(*from, from, none);
                    }
                    break;
                }
                default:
                {
                    const size_t cap = p->capacity();
                    (void)p->debug();
                    SIM_CHECK(p->capacity() == cap, "bytes:capacity", "changed by looking");
                    break;
                }
            }
            check(*p, p, m);
        }
        if (m.consumed) sim::note_nontrivial();
        // a copy is independent
        if (wc(0.2))
        {
            BytesMut c = *p;
            check(c, &c, m);
            if (c.remaining())
            {
                p->clear();
                check(c, &c, m);
            }
        }
    }
    // Receiving a stream through a worker.
    Task<void> receiver(Worker& w, int fd, u64 id, u64 total)
    {
        Frame f;
        co_await SwitchToWorker(w);
        BytesMut b(wc(0.5) ? 0 : wr(1, 2000));
        Model m{id};
        u64 want = wr(1, 300);   // size of the next "message"
        for (;;)
        {
            if (wc(0.8) || b.writable() == 0) b.reserve(wr(1, 1500));
            const auto s = b.writable_span();
            auto r = co_await w.async_read(fd, s);
            if (!r)
            {
                SIM_CHECK(r.error().value == EINTR || r.error().value == EAGAIN || r.error().value == ECONNRESET || r.error().value == EIO, "bytes:error", "reading failed: %d", r.error().value);
                if (r.error().value == EINTR || r.error().value == EAGAIN) continue;
                break;
            }
            if (*r == 0)
            {
                SIM_CHECK(m.committed == total, "bytes:lost", "the stream ended after %llu of %llu bytes", (unsigned long long)m.committed, (unsigned long long)total);
                break;
            }
            b.commit_write(size_t(*r));
            m.committed += u64(*r);
            check(b, &b, m);
            while (b.remaining() >= want)
            {
                const auto p = b.peek(want);
                check_stream(id, m.consumed, p.data(), p.size(), "bytes:content", "a received message");
                b.advance(want);
                m.consumed += want;
                want = wr(1, 300);
                sim::note_nontrivial();
                if (b.should_compact() && wc(0.5)) b.compact();
                check(b, &b, m);
            }
        }
        check(b, &b, m);
    }
}  // namespace

SIM_SCENARIO(bytesmut)
{
    setup(0);
    if (wc(0.85))
    {
        const u64 n = wr(1, 3);
        for (u64 i = 0; i < n; ++i) history(i, wr(5, 120));
        return;
    }
    if (sim::chance(Conf, 0.5)) sim::set_fault(sim::F_ShortRead, 0.4);
    if (sim::chance(Conf, 0.3)) sim::set_fault(sim::F_ConnReset, 0.02);
    auto* pool = new IOPool(1, WorkerConfig{.uring_queue_depth = 32});
    const int lst = sim::peer_listen(700);
    const u64 n = wr(1, 3);
    std::vector<std::thread> th;
    th.reserve(2 * n);
    std::vector<int> fds;
    for (u64 i = 0; i < n; ++i)
    {
        const int fd = connect_plain(700);
        if (fd < 0) continue;
        const int h = sim::peer_accept(lst);
        const u64 total = some_size(0, 20000);
        fds.push_back(fd);
        th.emplace_back([h, i, total] {
            const std::string d = stream_data(i, 0, total);
            sim::peer_send(h, d.data(), d.size());
            sim::peer_shutdown_write(h);
        });
        th.emplace_back([pool, fd, i, total] { kio::SyncWait(receiver(*pool->get_worker(0), fd, i, total)); });
    }
    for (auto& t: th) t.join();
    delete pool;
    for (const int fd: fds) ::close(fd);
    SIM_CHECK(Frame::live == 0, "bytes:frames", "%lld coroutines left", (long long)Frame::live);
}
