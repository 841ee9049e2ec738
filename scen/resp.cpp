// C18: parsing a RESP stream however it is cut.
#include "net_common.h"

#include "kio/resp/parser.h"
#include "kio/sync/sync_wait.h"

using namespace scen;
using kio::resp::FrameHeader;
using kio::resp::FrameIterator;
using kio::resp::FrameType;
using kio::resp::ParseError;
using kio::resp::Parser;
using kio::resp::ParserConfig;

namespace
{
    // ---- reference ------------------------------------------------------------------------------------------------
    enum class St
    {
        Whole,
        More,
        Bad,        // malformed
        Deep,       // nested too deep
        Big,        // bulk too long
        Unclear     // not pinned down by the protocol
    };
    struct Node
    {
        u64 off = 0, size = 0, count = 0;
        char type = 0;
        u64 pay_off = 0, pay_len = 0;
        bool null = false;
        std::vector<Node> kids;
    };
    struct Ref
    {
        const std::string& s;
        u64 end;        // bytes known so far
        u64 max_depth, max_size;

        static bool digits(const std::string& t, size_t from)
        {
            if (from >= t.size()) return false;
            for (size_t i = from; i < t.size(); ++i)
                if (t[i] < '0' || t[i] > '9') return false;
            return true;
        }
        // -1: no integer, 0: out of range, 1: fine
        static int integer(const std::string& t, bool plus, i64& v)
        {
            const bool neg = !t.empty() && t[0] == '-', pos = plus && !t.empty() && t[0] == '+';
            if (!digits(t, neg || pos)) return -1;
            unsigned __int128 x = 0;
            for (size_t i = neg || pos; i < t.size(); ++i)
            {
                x = x * 10 + unsigned(t[i] - '0');
                if (x > (unsigned __int128)(1) << 64) return 0;
            }
            if (x > (unsigned __int128)(INT64_MAX) + (neg ? 1 : 0)) return 0;
            v = neg ? i64(-u64(x)) : i64(x);
            return 1;
        }
        static St real(const std::string& t)
        {
            if (t == "inf" || t == "-inf" || t == "+inf" || t == "nan") return St::Whole;
            size_t i = 0;
            if (i < t.size() && (t[i] == '+' || t[i] == '-')) ++i;
            size_t n = 0, frac = 0;
            while (i < t.size() && isdigit((unsigned char)t[i])) ++i, ++n;
            bool dot = false;
            if (i < t.size() && t[i] == '.')
            {
                dot = true;
                ++i;
                while (i < t.size() && isdigit((unsigned char)t[i])) ++i, ++frac;
            }
            if (n == 0 && frac == 0)
            {
                // words: only the ones above are in the protocol, others may be understood
                std::string u;
                for (char c: t) u += char(tolower(c));
                return u.find("inf") != u.npos || u.find("nan") != u.npos ? St::Unclear : St::Bad;
            }
            bool ex = false;
            if (i < t.size() && (t[i] == 'e' || t[i] == 'E'))
            {
                ex = true;
                ++i;
                if (i < t.size() && (t[i] == '+' || t[i] == '-')) ++i;
                if (i >= t.size()) return St::Bad;
                while (i < t.size() && isdigit((unsigned char)t[i])) ++i;
            }
            if (i != t.size()) return St::Bad;
            if (!n || (dot && !frac)) return St::Unclear;
            if (ex || n > 200) return St::Unclear;   // may be out of range
            return St::Whole;
        }
        St parse(u64 at, u64 depth, Node& n) const
        {
            if (depth > max_depth) return St::Deep;
            u64 cr = at;
            while (cr + 1 < end && !(s[cr] == '\r' && s[cr + 1] == '\n')) ++cr;
            if (cr + 1 >= end) return St::More;
            n.off = at;
            n.type = s[at];
            if (cr == at) return St::Bad;
            const std::string line = s.substr(at + 1, cr - at - 1);
            n.pay_off = at + 1;
            n.pay_len = line.size();
            n.size = cr + 2 - at;
            i64 v = 0;
            switch (n.type)
            {
                case '+':
                case '-': return St::Whole;
                case '_': return line.empty() ? St::Whole : St::Bad;
                case ':': return integer(line, true, v) == 1 ? St::Whole : St::Bad;
                case '#': return line == "t" || line == "f" ? St::Whole : St::Bad;
                case ',': return real(line);
                case '(': return digits(line, !line.empty() && (line[0] == '-' || line[0] == '+')) ? St::Whole : St::Bad;
                case '$':
                case '!':
                case '=':
                {
                    if (integer(line, false, v) != 1) return St::Bad;
                    if (v == -1)
                    {
                        n.null = true;
                        n.pay_len = 0;
                        return St::Whole;
                    }
                    if (v < 0) return St::Bad;
                    if (u64(v) > max_size) return St::Big;
                    n.pay_off = cr + 2;
                    n.pay_len = u64(v);
                    if (end - (cr + 2) < u64(v) + 2) return St::More;
                    n.size += u64(v) + 2;
                    return s[cr + 2 + u64(v)] == '\r' && s[cr + 2 + u64(v) + 1] == '\n' ? St::Whole : St::Bad;
                }
                case '*':
                case '%':
                case '~':
                case '>':
                case '|':
                {
                    if (integer(line, false, v) != 1 || v < 0) return St::Bad;
                    n.count = u64(v);
                    const u64 k = n.type == '%' || n.type == '|' ? 2 * u64(v) : u64(v);
                    for (u64 i = 0; i < k; ++i)
                    {
                        Node c;
                        const St r = parse(at + n.size, depth + 1, c);
                        if (r != St::Whole) return r;
                        n.size += c.size;
                        n.kids.push_back(std::move(c));
                    }
                    return St::Whole;
                }
                default: return St::Bad;
            }
        }
    };
    // ---- generator -------------------------------------------------------------------------------------------------
    std::string word(u64 hi)
    {
        std::string t;
        const u64 n = some_size(0, hi);
        static const char al[] = "abcxyz 0123456789+-:$*\r\n\n\r_#";
        const bool nasty = wc(0.3);
        u64 r = wr(0, ~0ull >> 1);
        for (u64 i = 0; i < n; ++i)
        {
            r = r * 6364136223846793005ull + 1442695040888963407ull;
            t += nasty ? al[(r >> 33) % (sizeof al - 1)] : char('a' + (r >> 33) % 26);
        }
        return t;
    }
    std::string line_word()
    {
        std::string t = word(60);
        for (size_t i = 0; i + 1 < t.size(); ++i)
            if (t[i] == '\r' && t[i + 1] == '\n') t[i] = '.';
        if (!t.empty() && t.back() == '\r') t.back() = '.';
        return t;
    }
    std::string number()
    {
        static const char* const odd[] = {"0", "-0", "9223372036854775807", "-9223372036854775808", "007", "+5", "+0"};
        return wc(0.2) ? odd[wr(0, 6)] : (wc(0.3) ? "-" : "") + std::to_string(wr(0, wc(0.5) ? 100 : ~0ull >> 1));
    }
    void gen(std::string& o, u64 depth, u64 max_depth, u64 bulk)
    {
        const u64 k = wr(0, depth < max_depth ? 15 : 10);
        switch (k)
        {
            case 0: o += "+" + line_word() + "\r\n"; return;
            case 1: o += "-ERR " + line_word() + "\r\n"; return;
            case 2:
            case 3: o += ":" + number() + "\r\n"; return;
            case 4: o += "_\r\n"; return;
            case 5: o += wc(0.5) ? "#t\r\n" : "#f\r\n"; return;
            case 6:
            {
                static const char* const d[] = {"inf", "-inf", "nan", "3.25", "-1.5", "+2.5", "0", "10", "-0.0"};
                o += std::string(",") + d[wr(0, 8)] + "\r\n";
                return;
            }
            case 7: o += "(" + number() + std::string(wr(0, 30), '7') + "\r\n"; return;
            case 8:
            case 9:
            case 10:
            {
                const char t = "$$$!="[wr(0, 4)];
                if (wc(0.1))
                {
                    o += "$-1\r\n";
                    return;
                }
                const std::string w = word(bulk);
                o += t + std::to_string(w.size()) + "\r\n" + w + "\r\n";
                return;
            }
            default:
            {
                const char t = "*%~>|"[k - 11];
                const u64 n = wc(0.05) ? wr(0, 40) : wr(0, 4);
                o += t + std::to_string(n) + "\r\n";
                for (u64 i = 0; i < (t == '%' || t == '|' ? 2 * n : n) && o.size() < 20000; ++i) gen(o, depth + 1, max_depth, bulk);
            }
        }
    }
    void damage(std::string& s)
    {
        const u64 n = wr(1, 3);
        for (u64 i = 0; i < n && !s.empty(); ++i)
        {
            const size_t p = wr(0, s.size() - 1);
            switch (wr(0, 5))
            {
                case 0: s[p] = char(u8(s[p]) ^ (1u << wr(0, 7))); break;
                case 1: s.erase(p, wr(1, 4)); break;
                case 2: s.insert(p, std::string(1, "\r\n0159-+$*%:x"[wr(0, 12)])); break;
                case 3: s.resize(p); break;
                case 4: s[p] = "\r\n0159-+$*%:x"[wr(0, 12)]; break;
                default:
                {
                    static const char* const t[] = {"*99999\r\n", "$9223372036854775807\r\n", "*9223372036854775807\r\n", "%9223372036854775807\r\n", "$-2\r\n", "*-1\r\n", "\r\n", ":\r\n", "$\r\n", "*\r\n", ":+-5\r\n", "$+5\r\nabcde\r\n",
                                                    "$18446744073709551615\r\n", "_x\r\n", "#true\r\n", "(\r\n", "(-\r\n", ",\r\n", "~4294967296\r\n", "*1\r\n*1\r\n*1\r\n*1\r\n*1\r\n*1\r\n"};
                    s.insert(p, t[wr(0, 19)]);
                    break;
                }
            }
        }
    }
    // ---- check -----------------------------------------------------------------------------------------------------
    const char* err_name(ParseError e)
    {
        static const char* const n[] = {"NeedMoreData", "MalformedFrame", "Atoi", "MaxDepthReached", "SizeOverflow", "EoIter", "Unknown"};
        return n[int(e)];
    }
    bool is_bad(ParseError e) { return e == ParseError::MalformedFrame || e == ParseError::Atoi || e == ParseError::Unknown; }
    bool agrees(St st, ParseError e)
    {
        switch (st)
        {
            case St::Bad: return is_bad(e);
            case St::Deep: return e == ParseError::MaxDepthReached;
            case St::Big: return e == ParseError::SizeOverflow;
            default: return false;
        }
    }
    std::string show(const std::string& s, u64 from, u64 n)
    {
        std::string o;
        for (u64 i = from; i < std::min<u64>(s.size(), from + n); ++i)
        {
            char b[8];
            if (s[i] >= 32 && s[i] < 127)
                o += s[i];
            else
            {
                std::snprintf(b, sizeof b, s[i] == '\r' ? "\\r" : s[i] == '\n' ? "\\n" : "\\x%02x", u8(s[i]));
                o += b;
            }
        }
        return o;
    }
    struct Feed
    {
        std::string all;      // everything that will ever be sent
        u64 base = 0;         // consumed
        u64 got = 0;          // received
        ParserConfig cfg;
        bool over = false;    // the stream has a frame nobody can pass
        u64 frames = 0;
    };
    void check_frame(Parser& p, const Feed& f, const FrameHeader& h, const Node& n, const char* base)
    {
        // base: where f.base is in memory
        SIM_CHECK(char(h.type) == n.type, "resp:type", "frame '%s' has type %c", show(f.all, n.off, 20).c_str(), char(h.type));
        SIM_CHECK(h.data == base + (n.off - f.base), "resp:position", "frame '%s' starts %lld bytes off", show(f.all, n.off, 20).c_str(), (long long)(h.data - (base + (n.off - f.base))));
        SIM_CHECK(h.size == n.size, "resp:size", "frame '%s' has %zu bytes instead of %llu", show(f.all, n.off, 20).c_str(), h.size, (unsigned long long)n.size);
        SIM_CHECK(h.element_count == n.count, "resp:count", "frame '%s' has %zu elements instead of %llu", show(f.all, n.off, 20).c_str(), h.element_count, (unsigned long long)n.count);
        const bool bulk = n.type == '$' || n.type == '!' || n.type == '=';
        const bool agg = n.type == '*' || n.type == '%' || n.type == '~' || n.type == '>' || n.type == '|';
        if (!agg)
        {
            const auto v = bulk ? kio::resp::get_bulk_payload(h) : kio::resp::get_simple_payload(h);
            SIM_CHECK(v == std::string_view(f.all).substr(n.pay_off, n.pay_len), "resp:payload", "payload of '%s' is '%s'", show(f.all, n.off, 20).c_str(), show(std::string(v), 0, 30).c_str());
        }
        if (!agg && !wc(0.1)) return;
        FrameIterator it(h, p);
        SIM_CHECK(it.remaining() == n.kids.size(), "resp:iterate", "%zu children instead of %zu", it.remaining(), n.kids.size());
        u64 left = n.kids.size();
        for (auto& k: n.kids)
        {
            SIM_CHECK(it.has_next() && it.remaining() == left--, "resp:iterate", "the children end early");
            auto c = it.next();
            SIM_CHECK(c.has_value(), "resp:iterate", "child '%s' of a whole frame: %s", show(f.all, k.off, 20).c_str(), err_name(c.error()));
            check_frame(p, f, *c, k, base);
        }
        auto e = it.next();
        SIM_CHECK(!it.has_next() && !e && e.error() == ParseError::EoIter, "resp:iterate", "more children than elements");
    }
    // Takes every frame it can out of the parser.
    void take(Parser& p, Feed& f)
    {
        for (;;)
        {
            const auto r = p.next_frame();
            Node n;
            St now, ever;
            {
                Quiet q;
                Ref a{f.all, f.got, f.cfg.max_aggregate_depth, f.cfg.max_size};
                now = a.parse(f.base, 0, n);
                Node m;
                Ref b{f.all, f.all.size(), f.cfg.max_aggregate_depth, f.cfg.max_size};
                ever = now == St::More ? b.parse(f.base, 0, m) : now;
                if (now == St::Unclear || ever == St::Unclear)
                {
                    // whatever it says about that one; the stream is not followed any further
                    f.over = true;
                    return;
                }
                const std::string at = show(f.all, f.base, std::min<u64>(f.got - f.base, 60));
                if (now == St::Whole)
                    SIM_CHECK(r.has_value(), "resp:refused", "a whole frame is reported as %s: '%s'", r.has_value() ? "" : err_name(r.error()), at.c_str());
                else
                {
                    SIM_CHECK(!r.has_value(), "resp:accepted", "%s is returned as a frame: '%s'", now == St::More ? "an incomplete frame" : now == St::Bad ? "a malformed frame" : "a frame beyond the limits", at.c_str());
                    if (now == St::More)
                        SIM_CHECK(r.error() == ParseError::NeedMoreData || agrees(ever, r.error()), "resp:error", "an incomplete frame is reported as %s: '%s'", err_name(r.error()), at.c_str());
                    else
                        SIM_CHECK(agrees(now, r.error()), "resp:error", "a %s frame is reported as %s: '%s'", now == St::Bad ? "malformed" : now == St::Deep ? "too deeply nested" : "too long", err_name(r.error()), at.c_str());
                }
            }
            if (!r)
            {
                if (r.error() != ParseError::NeedMoreData) f.over = true;
                return;
            }
            check_frame(p, f, *r, n, p.buffer().readable_span().data());
            if (wc(0.1))
            {
                // asking again changes nothing
                const auto again = p.next_frame();
                SIM_CHECK(again && again->size == r->size && again->data == r->data, "resp:again", "the same frame differs when asked for again");
            }
            if (wc(0.5))
                p.consume(*r);
            else
                p.consume(r->size);
            f.base += n.size;
            f.frames++;
            SIM_CHECK(p.buffer().remaining() == f.got - f.base, "resp:consumed", "%zu bytes left instead of %llu", p.buffer().remaining(), (unsigned long long)(f.got - f.base));
            if (f.frames > 1) sim::note_nontrivial();
        }
    }
    ParserConfig some_config()
    {
        ParserConfig c;
        if (wc(0.5)) c.max_aggregate_depth = wr(0, 6);
        if (wc(0.3)) c.max_size = wr(0, 1000);
        if (wc(0.05)) c.max_size = ~0ull;
        c.initial_buffer = wc(0.3) ? some_size(0, 4096) : wr(1, 64);
        return c;
    }
    std::string some_stream(u64 frames, u64 max_depth)
    {
        std::string s;
        const u64 d = std::min<u64>(max_depth, 6) + (wc(0.1) ? 1 : 0);
        const u64 bulk = wc(0.1) ? 9000 : 80;
        for (u64 i = 0; i < frames; ++i) gen(s, 0, d, bulk);
        if (wc(0.3)) damage(s);
        return s;
    }
    void pieces()
    {
        Feed f;
        f.cfg = some_config();
        f.all = some_stream(wr(1, 8), f.cfg.max_aggregate_depth);
        Parser p(f.cfg);
        const bool bytewise = f.all.size() < 300 && wc(0.3);
        while (f.got < f.all.size() && !f.over)
        {
            const u64 n = bytewise ? 1 : some_size(1, f.all.size() - f.got);
            p.buffer().reserve(n + wr(0, 30));
            auto w = p.buffer().writable_span();
            {
                Quiet q;
                std::memcpy(w.data(), f.all.data() + f.got, n);
                // what follows in memory is not part of the stream, however much it looks like it
                static const char tail[] = "\r\n:1\r\n+x\r\n$1\r\na\r\n\r\n";
                for (u64 i = n; i < std::min<u64>(w.size(), n + 19); ++i) w[i] = tail[i - n];
            }
            p.buffer().commit_write(n);
            f.got += n;
            take(p, f);
            if (wc(0.1)) p.buffer().compact();
        }
    }
    // The same through a connection served by a worker.
    Task<void> serve(Worker& w, int fd, Feed* f)
    {
        Frame fr;
        co_await SwitchToWorker(w);
        Parser p(f->cfg);
        for (;;)
        {
            p.buffer().reserve(wr(1, 2000));
            auto r = co_await w.async_read(fd, p.buffer().writable_span());
            if (!r)
            {
                if (r.error().value == EAGAIN || r.error().value == EINTR) continue;
                break;
            }
            if (*r == 0)
            {
                Quiet q;
                SIM_CHECK(f->got == f->all.size(), "resp:lost", "%llu of %zu bytes received", (unsigned long long)f->got, f->all.size());
                break;
            }
            p.buffer().commit_write(size_t(*r));
            f->got += u64(*r);
            take(p, *f);
            if (f->over) break;
        }
    }
}  // namespace

SIM_SCENARIO(resp)
{
    setup(0);
    if (wc(0.9))
    {
        const u64 n = wr(1, 6);
        for (u64 i = 0; i < n; ++i) pieces();
        return;
    }
    if (sim::chance(Conf, 0.6)) sim::set_fault(sim::F_ShortRead, 0.5);
    if (sim::chance(Conf, 0.3)) sim::set_fault(sim::F_ConnReset, 0.02);
    auto* pool = new IOPool(wr(1, 2), WorkerConfig{.uring_queue_depth = 32});
    const int lst = sim::peer_listen(700);
    const u64 n = wr(1, 3);
    std::vector<std::thread> th;
    th.reserve(2 * n);
    std::vector<int> fds;
    std::vector<std::unique_ptr<Feed>> feeds;
    for (u64 i = 0; i < n; ++i)
    {
        const int fd = connect_plain(700);
        if (fd < 0) continue;
        const int h = sim::peer_accept(lst);
        fds.push_back(fd);
        auto f = std::make_unique<Feed>();
        f->cfg = some_config();
        f->all = some_stream(wr(1, 20), f->cfg.max_aggregate_depth);
        Feed* fp = f.get();
        feeds.push_back(std::move(f));
        Worker* w = pool->get_worker(wr(0, pool->num_workers() - 1));
        th.emplace_back([h, fp] {
            u64 at = 0;
            while (at < fp->all.size())
            {
                const u64 k = some_size(1, fp->all.size() - at);
                if (sim::peer_send(h, fp->all.data() + at, k) < 0) return;
                at += k;
                if (wc(0.3)) sim::sleep_ns(wr(0, 200000));
            }
            sim::peer_shutdown_write(h);
        });
        th.emplace_back([w, fd, fp] {
            kio::SyncWait(serve(*w, fd, fp));
            ::close(fd);
        });
    }
    for (auto& t: th) t.join();
    delete pool;
    SIM_CHECK(Frame::live == 0, "resp:frames", "%lld coroutines left", (long long)Frame::live);
}
