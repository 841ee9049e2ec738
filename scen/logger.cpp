// C14: the asynchronous logger.
#include "common.h"

#include <charconv>
#include <cmath>
#include <ctime>
#include <format>
#include <iostream>
#include <streambuf>

#include "kio/core/async_logger.h"

using kio::Logger;
using kio::LogLevel;

namespace
{
    struct Bad
    {
        u64 key;
    };
}  // namespace
template<>
struct std::formatter<Bad> : std::formatter<int>
{
    template<class C>
    auto format(const Bad& b, C& c) const -> decltype(c.out())
    {
        if (b.key % 2)
            throw std::runtime_error("k" + std::to_string(b.key) + ";");
        else
            throw std::invalid_argument(std::string(300, 'z') + "k" + std::to_string(b.key) + ";");
    }
};

namespace
{
    constexpr u64 ms = 1000000ull;
    // One message, as its caller knows it.
    struct Msg
    {
        u64 key;
        u64 thread, seq;
        LogLevel lvl;
        bool bad = false;
        std::string body;
        enum { Pending, Accepted, Dropped, MaybeFiltered, Filtered } fate = Pending;
        u64 written = 0;
        u64 t_accept = 0, t_written = 0;
        unsigned line_lo = 0, line_hi = 0;   // where the call is
        i64 w0 = 0, w1 = 0;                  // the wall clock before and after it
    };
    struct World
    {
        std::map<u64, Msg> msgs;
        std::map<u64, u64> last_seq;     // per thread, last written
        std::string partial;
        u64 accepted = 0, written = 0, in_call = 0, cap = 0;
        std::map<int, u64> drops;        // per simulated thread
        std::map<int, bool> in_log;
        u64 level_epoch = 0;
        bool level_changing = false;
        LogLevel level = LogLevel::Info;
        bool weak = false, destroyed = false;
        u64 slow = 0;
        std::map<u64, std::string> tid;  // of each thread
    };
    World* g;
    i64 wall()
    {
        timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        return i64(ts.tv_sec) * 1000000000 + ts.tv_nsec;
    }
    std::string when(i64 ns) { return std::format("{:%Y-%m-%d %H:%M:%S}", std::chrono::sys_seconds(std::chrono::seconds(ns / 1000000000))); }

    u64 key_of(const std::string& line)
    {
        const size_t k = line.rfind('k');
        u64 v = 0;
        if (k == std::string::npos) return 0;
        std::from_chars(line.data() + k + 1, line.data() + line.size(), v);
        return v;
    }
    const char* lname(LogLevel l)
    {
        static const char* n[] = {"DISA", "TRACE", "DEBUG", "INFO", "WARN", "ERROR"};
        return n[int(l)];
    }
    void line_written(const std::string& line)
    {
        SIM_CHECK(!g->destroyed, "log:late", "a message was written after the logger was destroyed");
        const u64 key = key_of(line);
        auto it = g->msgs.find(key);
        SIM_CHECK(it != g->msgs.end(), "log:garbled", "a line that is no message was written: %.200s", line.c_str());
        Msg& m = it->second;
        SIM_CHECK(++m.written == 1, "log:twice", "a message was written %llu times", (unsigned long long)m.written);
        g->written++;
        m.t_written = sim::now();
        // [time] [LEVEL] [tid:N] file:line - body
        const size_t p = line.find(" - ");
        SIM_CHECK(line.size() > 30 && line[0] == '[' && p != std::string::npos, "log:garbled", "malformed line: %.200s", line.c_str());
        const std::string head = line.substr(0, p), body = line.substr(p + 3);
        char lv[16];
        snprintf(lv, sizeof lv, "[%-5s]", lname(m.lvl));
        SIM_CHECK(head.find(lv) != std::string::npos, "log:garbled", "a message of level %s was written as: %.200s", lname(m.lvl), line.c_str());
        SIM_CHECK(head.find("logger.cpp:") != std::string::npos, "log:garbled", "the source location is wrong: %.200s", line.c_str());
        const unsigned long at = std::strtoul(head.c_str() + head.find("logger.cpp:") + 11, nullptr, 10);
        SIM_CHECK(at >= m.line_lo && at <= m.line_hi, "log:garbled", "a message logged at line %u to %u was written as: %.200s", m.line_lo, m.line_hi, line.c_str());
        const std::string t = line.substr(1, 19);
        SIM_CHECK(t >= when(m.w0) && t <= when(m.w1 ? m.w1 : wall()), "log:garbled", "a message logged from %s to %s was written as: %.200s", when(m.w0).c_str(),
                  when(m.w1 ? m.w1 : wall()).c_str(), line.c_str());
        const size_t tp = head.find("[tid:");
        SIM_CHECK(tp != std::string::npos, "log:garbled", "malformed line: %.200s", line.c_str());
        const std::string tid = head.substr(tp, head.find(']', tp) - tp);
        for (auto& [th, name]: g->tid)
            SIM_CHECK((th == m.thread) == (name == tid), "log:garbled", "a message of thread %llu was written as one of %s", (unsigned long long)m.thread, tid.c_str());
        g->tid[m.thread] = tid;
        if (m.bad)
            SIM_CHECK(body.rfind("<log format error: ", 0) == 0, "log:garbled", "a message that cannot be formatted was written as: %.200s", line.c_str());
        else
            SIM_CHECK(body == m.body, "log:content", "message %llu of %zu bytes was written with other content (%zu bytes): %.100s", (unsigned long long)key, m.body.size(), body.size(), body.c_str());
        SIM_CHECK(m.fate != Msg::Filtered, "log:level", "a message below the level was written");
        SIM_CHECK(m.fate != Msg::Dropped, "log:dropped", "a message reported as dropped was written");
        u64& last = g->last_seq[m.thread];
        SIM_CHECK(m.seq > last, "log:order", "thread %llu logged message %llu after %llu, they were written in the other order", (unsigned long long)m.thread, (unsigned long long)last, (unsigned long long)m.seq);
        last = m.seq;
        sim::note_nontrivial();
    }
    // What the logger writes to.
    struct Sink : std::streambuf
    {
        std::streamsize xsputn(const char* s, std::streamsize n) override
        {
            if (g->slow) sim::sleep_ns(g->slow);
            Quiet q;
            for (std::streamsize i = 0; i < n; ++i) put(s[i]);
            return n;
        }
        int overflow(int c) override
        {
            Quiet q;
            if (c != EOF) put(char(c));
            return c;
        }
        static void put(char c)
        {
            SIM_CHECK(!g->in_log[sim::fid()], "log:blocking", "the calling thread writes messages itself");
            if (c != '\n')
            {
                g->partial += c;
                return;
            }
            std::string l = std::exchange(g->partial, {});
            line_written(l);
        }
    };
    // stderr: where drops are reported
    struct ErrSink : std::streambuf
    {
        std::streamsize xsputn(const char* s, std::streamsize n) override
        {
            Quiet q;
            if (std::string_view(s, size_t(n)).find("full") != std::string_view::npos) g->drops[sim::fid()]++;
            return n;
        }
        int overflow(int c) override { return c == EOF ? 0 : c; }
    };
    SIM_NOINSTR std::string body_of(u64 key, u64 n)
    {
        Quiet q;
        std::string s = "b";
        for (u64 i = 0; s.size() < n; ++i) s += char('A' + (key * 7 + i * 3) % 23);
        s += " k" + std::to_string(key);
        return s;
    }
    Msg* begin(u64 thread, u64 seq, LogLevel lvl, bool bad, std::string body)
    {
        Quiet q;
        const u64 key = (thread + 1) * 100000 + seq * 2 + (bad ? seq % 2 : 0);
        Msg& m = g->msgs[key];
        m.key = key;
        m.thread = thread;
        m.seq = seq;
        m.lvl = lvl;
        m.bad = bad;
        m.body = std::move(body);
        g->in_call++;
        g->in_log[sim::fid()] = true;
        return &m;
    }
    void logger_thread(Logger* lg, u64 id, u64 n, u64 gap)
    {
        for (u64 i = 1; i <= n; ++i)
        {
            static const LogLevel lv[] = {LogLevel::Info, LogLevel::Trace, LogLevel::Debug, LogLevel::Warn, LogLevel::Error};
            const LogLevel lvl = lv[wr(0, 4)];
            const bool bad = wc(0.1);
            const u64 len = wc(0.3) ? wr(230, 270) : wc(0.15) ? wr(270, 5000) : wr(0, 200);
            const u64 key = (id + 1) * 100000 + i * 2 + (bad ? i % 2 : 0);
            std::string body = body_of(key, len);
            u64 epoch, drops;
            bool changing;
            LogLevel cur;
            u64 accepted0, written0;
            Msg* m = begin(id, i, lvl, bad, body);
            {
                Quiet q;
                epoch = g->level_epoch;
                changing = g->level_changing;
                cur = g->level;
                drops = g->drops[sim::fid()];
                accepted0 = g->accepted;
                written0 = g->written;
                m->line_lo = __LINE__;
                m->line_hi = m->line_lo + 40;
                m->w0 = wall();
            }
            const u64 t0 = sim::now();
            const auto loc = std::source_location::current();
            if (bad)
                switch (lvl)
                {
                    case LogLevel::Trace: lg->trace(loc, "x{}", Bad{key}); break;
                    case LogLevel::Debug: lg->debug(loc, "x{}", Bad{key}); break;
                    case LogLevel::Info: lg->info(loc, "x{}", Bad{key}); break;
                    case LogLevel::Warn: lg->warn(loc, "x{}", Bad{key}); break;
                    default: lg->error(loc, "x{}", Bad{key}); break;
                }
            else if (wc(0.5))
                switch (lvl)
                {
                    case LogLevel::Trace: KIO_LOG_TRACE(*lg, "{}", body); break;
                    case LogLevel::Debug: KIO_LOG_DEBUG(*lg, "{}", body); break;
                    case LogLevel::Info: KIO_LOG_INFO(*lg, "{}", body); break;
                    case LogLevel::Warn: KIO_LOG_WARN(*lg, "{}", body); break;
                    default: KIO_LOG_ERROR(*lg, "{}", body); break;
                }
            else
            {
                // temporaries as arguments
                switch (lvl)
                {
                    case LogLevel::Trace: lg->trace(loc, "{}{}", body.substr(0, 1), body.substr(1)); break;
                    case LogLevel::Debug: lg->debug(loc, "{}{}", body.substr(0, 1), body.substr(1)); break;
                    case LogLevel::Info: lg->info(loc, "{}{}", body.substr(0, 1), body.substr(1)); break;
                    case LogLevel::Warn: lg->warn(loc, "{}{}", body.substr(0, 1), body.substr(1)); break;
                    default: lg->error(loc, "{}{}", body.substr(0, 1), body.substr(1)); break;
                }
            }
            // what the message referred to goes away now
            std::fill(body.begin(), body.end(), '!');
            body.clear();
            body.shrink_to_fit();
            {
                Quiet q;
                g->in_call--;
                g->in_log[sim::fid()] = false;
                m->w1 = wall();
                const bool dropped = g->drops[sim::fid()] != drops;
                const bool stable = !changing && !g->level_changing && epoch == g->level_epoch;
                const bool on = cur != LogLevel::Disabled && int(lvl) >= int(cur);
                if (dropped)
                {
                    m->fate = Msg::Dropped;
                    SIM_CHECK(m->written == 0, "log:dropped", "a message reported as dropped was written");
                    // items that may have been in the queue at some moment of the call
                    if (!g->weak)
                        SIM_CHECK(g->accepted + g->in_call - written0 >= g->cap, "log:needless-drop", "a message was dropped with at most %llu of %llu places taken", (unsigned long long)(g->accepted + g->in_call - written0), (unsigned long long)g->cap);
                    sim::probe("message dropped");
                }
                else if (stable && on)
                {
                    m->fate = Msg::Accepted;
                    m->t_accept = sim::now();
                    g->accepted++;
                }
                else if (stable && !on)
                {
                    m->fate = Msg::Filtered;
                    SIM_CHECK(m->written == 0, "log:level", "a message below the level was written");
                }
                else
                {
                    m->fate = Msg::MaybeFiltered;
                    g->accepted++;   // an upper bound
                }
                (void)accepted0;
                (void)t0;
            }
            if (gap && wc(0.5)) sim::sleep_ns(wr(1, gap));
        }
    }
}  // namespace

SIM_SCENARIO(logger)
{
    sim::swarm_policy();
    sim::swarm_kernel();
    World world;
    g = &world;
    g->weak = swarm_weak_memory(0.25);
    if (g->weak) g->weak = true;
    Sink sink;
    std::ostream os(&sink);
    ErrSink err;
    std::streambuf* old = std::cerr.rdbuf(&err);
    const int before = sim::open_fds();
    if (sim::chance(Conf, 0.3)) sim::set_fault(sim::F_Eintr, 0.2);
    // (a polling consumer sees a stale queue for as long as the memory model lets it)
    const bool nofd = sim::chance(Conf, 0.1) && !g->weak;
    if (nofd) sim::set_fault(sim::F_Emfile, 1.0);
    g->cap = pow(2.0, double(wr(0, 6)));
    g->level = wc(0.6) ? LogLevel::Trace : LogLevel(wr(0, 5));
    auto* lg = new Logger(g->cap, g->level, os);
    sim::set_fault(sim::F_Emfile, 0);
    g->slow = wc(0.4) ? wr(1, 200'000) : 0;
    const u64 n = wr(1, 4);
    const u64 gap = wc(0.5) ? wr(1, 500'000) : 0;
    std::vector<std::thread> th;
    for (u64 i = 0; i < n; ++i)
    {
        const u64 k = wr(1, 25);
        th.emplace_back([lg, i, k, gap] { logger_thread(lg, i, k, gap); });
    }
    const bool changes = !g->weak && wc(0.3);
    if (changes)
        th.emplace_back([lg] {
            for (u64 i = 0, k = wr(1, 8); i < k; ++i)
            {
                sim::sleep_ns(wr(1, 200'000));
                const LogLevel l = LogLevel(wr(0, 5));
                {
                    Quiet q;
                    g->level_changing = true;
                }
                lg->set_level(l);
                SIM_CHECK(lg->should_log(LogLevel::Error) == (l != LogLevel::Disabled), "log:level", "the level did not change");
                Quiet q;
                g->level = l;
                g->level_epoch++;
                g->level_changing = false;
            }
        });
    if (wc(0.2))
        th.emplace_back([lg] {
            for (u64 i = 0, k = wr(1, 4); i < k; ++i)
            {
                sim::sleep_ns(wr(1, 300'000));
                lg->flush();
            }
        });
    for (auto& t: th) t.join();
    if (wc(0.5))
    {
        // left alone, the logger writes what it accepted
        if (wc(0.3)) lg->flush();
        if (nofd)
            sim::sleep_ns(500 * ms);
        else
            sim::settle(50 * ms);
        Quiet q;
        for (auto& [k, m]: g->msgs)
            if (m.fate == Msg::Accepted) SIM_CHECK(m.written == 1, "log:stuck", "an accepted message was not written while the logger was idle (%zu bytes%s)", m.body.size(), m.bad ? ", cannot be formatted" : "");
    }
    delete lg;
    {
        Quiet q;
        g->destroyed = true;
        for (auto& [k, m]: g->msgs)
        {
            if (m.fate == Msg::Accepted) SIM_CHECK(m.written == 1, "log:lost", "an accepted message was never written");
            if (m.fate == Msg::Filtered || m.fate == Msg::Dropped) SIM_CHECK(m.written == 0, "log:level", "a message that was not accepted was written");
        }
        SIM_CHECK(g->partial.empty(), "log:garbled", "an incomplete line was written");
    }
    SIM_CHECK(sim::open_fds() == before, "log:fd-leak", "%d descriptors leaked", sim::open_fds() - before);
    sim::sleep_ns(ms);
    std::cerr.rdbuf(old);
}
