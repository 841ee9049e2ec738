// C17: the metrics HTTP server.
#include "net_common.h"

#include <cmath>

#include "kio/core/metrics_collector.h"
#include "kio/metrics/registry.h"
#include "kio/metrics/server.h"

using namespace scen;

namespace
{
    u64 mix(u64 a, u64 b, u64 c = 0)
    {
        u64 x = a * 0x9E3779B97F4A7C15ull + b * 0xD1B54A32D192ED03ull + c * 0x94D049BB133111EBull + 1;
        x ^= x >> 30;
        x *= 0xBF58476D1CE4E5B9ull;
        x ^= x >> 27;
        return x * 0x94D049BB133111EBull >> 3;
    }
    double value_at(u64 x)
    {
        switch (x % 9)
        {
            case 0: return double(x % 1000);
            case 1: return double(x % (1ull << 53));
            case 2: return double(x % 1000000) / 7.0;
            case 3: return -double(x % 100000) / 3.0;
            case 4: return 1e300 * double(x % 77 + 1);
            case 5: return 5e-324 * double(x % 99);
            case 6: return x % 2 ? INFINITY : -INFINITY;
            case 7: return NAN;
            default: return 1234567.0 + double(x % 10);
        }
    }
    // What a collector reports at its `gen`-th collection.
    struct Fam
    {
        std::string name, help;
        bool counter;
        std::vector<std::pair<std::map<std::string, std::string>, double>> samples;
    };
    struct Col
    {
        u64 id, nfam, nsamp;
        bool odd;      // labels and texts with characters that need escaping
        u64 throws;    // every so many collections fail (0: never)
        u64 max_samples;
        u64 gen = 0;   // plain: only ever touched under the registry's lock
        std::vector<Fam> at(u64 g) const
        {
            std::vector<Fam> v;
            v.push_back({"gen_" + std::to_string(id), "generation", true, {{{}, double(g)}}});
            for (u64 f = 0; f < nfam; ++f)
            {
                Fam x;
                // some names are shared between collectors
                x.name = (f % 3 == 2 ? "shared_" + std::to_string(f) : "m" + std::to_string(id) + "_" + std::to_string(f));
                x.help = odd && mix(f, 7) % 2 ? "a\\b\nc \"q\"" : "help of " + x.name;
                if (f % 3 == 2) x.help = "shared";
                x.counter = f % 2;
                for (u64 s = 0; s < nsamp; ++s)
                {
                    std::map<std::string, std::string> l;
                    l["i"] = std::to_string(s);
                    l["col"] = std::to_string(id);
                    if (odd) l["t-x"] = mix(s, f) % 2 ? "a\"b\\c\nd{}=,# é" : "";
                    x.samples.emplace_back(std::move(l), value_at(mix(g, id * 100 + f, s)));
                }
                v.push_back(std::move(x));
            }
            return v;
        }
    };
    struct Collector : kio::IMetricsCollector
    {
        Col* c;
        explicit Collector(Col* col) : c(col) {}
        void Collect(kio::MetricSnapshot& s) override
        {
            const u64 g = ++c->gen;
            if (c->throws && g % c->throws == 0) throw std::runtime_error("collector " + std::to_string(c->id) + " failed");
            std::vector<Fam> v;
            {
                Quiet q;
                v = c->at(g);
            }
            for (auto& f: v)
            {
                auto& m = s.BuildFamily(f.name, f.help, f.counter ? kio::MetricType::Counter : kio::MetricType::Gauge);
                for (auto& [l, x]: f.samples) m.Add(l, x);
            }
        }
    };
    using Labels = std::map<std::string, std::string>;
    struct PFam
    {
        std::string help, type;
        std::vector<std::pair<Labels, double>> samples;
    };
    // A strict reader of the text exposition format.
    std::map<std::string, PFam> parse_page(const std::string& t)
    {
        std::map<std::string, PFam> out;
        std::string current;
        size_t pos = 0, line_no = 0;
        auto fail = [&](const char* what) { sim::violation("http:page", "line %zu of the metrics page: %s", line_no, what); };
        auto name_char = [](char c, bool first) { return c == '_' || c == ':' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (!first && c >= '0' && c <= '9'); };
        while (pos < t.size())
        {
            ++line_no;
            const size_t e = t.find('\n', pos);
            if (e == std::string::npos) fail("does not end");
            const std::string line = t.substr(pos, e - pos);
            pos = e + 1;
            if (line.empty()) continue;
            if (line[0] == '#')
            {
                const bool help = line.starts_with("# HELP "), type = line.starts_with("# TYPE ");
                if (!help && !type) fail("neither HELP nor TYPE");
                const size_t sp = line.find(' ', 7);
                if (sp == std::string::npos) fail("comment without a text");
                const std::string name = line.substr(7, sp - 7);
                std::string rest = line.substr(sp + 1), un;
                if (help)
                {
                    if (out.contains(name)) fail("a metric is described twice");
                    for (size_t i = 0; i < rest.size(); ++i)
                        if (rest[i] == '\\')
                        {
                            ++i;
                            if (i == rest.size() || (rest[i] != '\\' && rest[i] != 'n')) fail("bad escape in a HELP text");
                            un += rest[i] == 'n' ? '\n' : '\\';
                        }
                        else
                            un += rest[i];
                    out[name].help = un;
                    current = name;
                }
                else
                {
                    if (name != current || !out[name].type.empty() || !out[name].samples.empty()) fail("TYPE out of place");
                    if (rest != "counter" && rest != "gauge") fail("unknown type");
                    out[name].type = rest;
                }
                continue;
            }
            size_t i = 0;
            while (i < line.size() && name_char(line[i], i == 0)) ++i;
            if (i == 0 || line.substr(0, i) != current) fail("a sample outside its metric");
            Labels l;
            if (i < line.size() && line[i] == '{')
            {
                ++i;
                while (i < line.size() && line[i] != '}')
                {
                    const size_t k = i;
                    while (i < line.size() && name_char(line[i], i == k)) ++i;
                    const std::string key = line.substr(k, i - k);
                    if (key.empty() || i + 1 >= line.size() || line[i] != '=' || line[i + 1] != '"') fail("bad label");
                    i += 2;
                    std::string v;
                    for (; i < line.size() && line[i] != '"'; ++i)
                    {
                        if (line[i] != '\\')
                        {
                            v += line[i];
                            continue;
                        }
                        ++i;
                        if (i == line.size() || (line[i] != '\\' && line[i] != 'n' && line[i] != '"')) fail("bad escape in a label");
                        v += line[i] == 'n' ? '\n' : line[i];
                    }
                    if (i == line.size()) fail("label does not end");
                    ++i;
                    if (l.contains(key)) fail("a label twice");
                    l[key] = v;
                    if (i < line.size() && line[i] == ',') ++i;
                }
                if (i == line.size()) fail("labels do not end");
                ++i;
            }
            if (i >= line.size() || line[i] != ' ' || i + 1 >= line.size()) fail("no value");
            char* end;
            const double d = std::strtod(line.c_str() + i + 1, &end);
            if (*end) fail("bad value");
            out[current].samples.emplace_back(l, d);
        }
        return out;
    }
    struct World
    {
        std::vector<std::unique_ptr<Col>> cols;
        u64 max_gen = 0;
        std::set<u64> seen;        // generations of the first collector already shown
        bool throws = false;
        u64 answered = 0;
    };
    World* world;
    bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || std::memcmp(&a, &b, 8) == 0; }
    void check_page(const std::string& body)
    {
        Quiet q;
        auto page = parse_page(body);
        std::map<std::string, PFam> want;
        for (size_t ci = 0; ci < world->cols.size(); ++ci)
        {
            Col& c = *world->cols[ci];
            const std::string gn = "gen_" + std::to_string(c.id);
            if (!page.contains(gn) || page[gn].samples.size() != 1) sim::violation("http:page", "the page lacks the values of collector %llu", (unsigned long long)c.id);
            const u64 g = u64(page[gn].samples[0].second);
            SIM_CHECK(g >= 1 && g <= c.gen, "http:page", "generation %llu of %llu", (unsigned long long)g, (unsigned long long)c.gen);
            if (ci == 0) SIM_CHECK(world->seen.insert(g).second, "http:page", "two requests got the page of one collection");
            for (auto& f: c.at(g))
            {
                PFam& w = want[f.name];
                if (w.type.empty())
                {
                    w.help = f.help;
                    w.type = f.counter ? "counter" : "gauge";
                }
                for (auto& [l, x]: f.samples)
                {
                    Labels k;
                    for (auto& [a, b]: l) k[a == "t-x" ? "t_x" : a] = b;
                    w.samples.emplace_back(k, x);
                }
            }
        }
        for (auto& [n, f]: want)
        {
            auto it = page.find(n);
            SIM_CHECK(it != page.end(), "http:page", "the page lacks metric %s", n.c_str());
            SIM_CHECK(it->second.help == f.help && it->second.type == f.type, "http:page", "metric %s is described wrongly: '%s' %s", n.c_str(), it->second.help.c_str(), it->second.type.c_str());
            SIM_CHECK(it->second.samples.size() == f.samples.size(), "http:page", "metric %s has %zu samples, %zu were collected", n.c_str(), it->second.samples.size(), f.samples.size());
            for (size_t i = 0; i < f.samples.size(); ++i)
                SIM_CHECK(it->second.samples[i].first == f.samples[i].first && same(it->second.samples[i].second, f.samples[i].second), "http:page", "sample %zu of metric %s is %.17g, collected was %.17g, or its labels differ", i, n.c_str(),
                          it->second.samples[i].second, f.samples[i].second);
        }
        for (auto& [n, f]: page)
            if (!n.starts_with("kio_worker_")) SIM_CHECK(want.contains(n), "http:page", "the page holds metric %s nobody collected", n.c_str());
    }
    struct Ask
    {
        std::string text;
        int status;
        const char* body;   // nullptr: the metrics page
        bool fixed;
    };
    std::string headers()
    {
        std::string s = "Host: x\r\n";
        const u64 n = wr(0, 3);
        for (u64 i = 0; i < n; ++i) s += "X-H" + std::to_string(i) + ": " + std::string(some_size(0, 900), 'h') + "\r\n";
        return s;
    }
    Ask some_ask()
    {
        const std::string rest = " HTTP/1.1\r\n" + headers() + "\r\n";
        switch (wr(0, 9))
        {
            case 0: return {"GET /health" + rest, 200, "OK"};
            case 1: return {"GET /" + rest, 200, "OK"};
            case 2: return {"GET /metricsx" + rest, 404, "Not Found"};
            case 3: return {std::string(wc(0.5) ? "GET /health/" : "GET /METRICS") + rest, 404, "Not Found"};
            case 4: return {std::string(wc(0.5) ? "POST" : "HEADGET") + " /metrics" + rest, 405, "Method Not Allowed"};
            case 5: return {std::string(wc(0.5) ? "GET /metrics" : wc(0.5) ? "" : "nonsense") + "\r\n" + headers() + "\r\n", 400, "Bad Request"};
            default: return {"GET /metrics" + rest, 200, nullptr};
        }
    }
    constexpr u16 kPort = 9090;
    struct Env_
    {
        bool stopping_early = false;   // responses may be cut off
        bool scarce = false;           // the server may lack ring entries or slots for so many clients
        bool resets = false;
        std::atomic<bool> stopped{false};
    };
    Env_* env;

    // Reads until the connection ends. Returns false if it ended with an error.
    bool read_all(int h, std::string& out, u64 timeout, bool slow)
    {
        const size_t chunk = slow ? wr(1, 200) : 4096;
        for (;;)
        {
            char b[4096];
            const long n = sim::peer_recv(h, b, chunk, timeout);
            if (n > 0)
            {
                Quiet q;
                out.append(b, size_t(n));
                continue;
            }
            if (n == 0) return true;
            if (n == -EAGAIN) sim::violation("http:silent", "a complete request got %zu bytes and then nothing for %llu s", out.size(), (unsigned long long)(timeout / sec));
            return false;
        }
    }
    void check_response(const Ask& a, const std::string& r)
    {
        std::string body;
        {
            Quiet q;
            const size_t he = r.find("\r\n\r\n");
            SIM_CHECK(he != std::string::npos, "http:response", "a response of %zu bytes has no complete header: '%.60s'", r.size(), r.c_str());
            const std::string head = r.substr(0, he);
            body = r.substr(he + 4);
            const bool page = !a.body;
            int st = 0;
            SIM_CHECK(std::sscanf(head.c_str(), "HTTP/1.1 %d ", &st) == 1, "http:response", "no status line: '%.60s'", head.c_str());
            const bool failed = page && world->throws && st == 500;
            if (!failed) SIM_CHECK(st == a.status, "http:response", "status %d instead of %d for '%.30s'", st, a.status, a.text.c_str());
            const size_t cl = head.find("\r\nContent-Length: ");
            SIM_CHECK(cl != std::string::npos, "http:response", "no Content-Length");
            const u64 len = std::strtoull(head.c_str() + cl + 18, nullptr, 10);
            SIM_CHECK(len == body.size(), "http:response", "Content-Length is %llu, the body has %zu bytes", (unsigned long long)len, body.size());
            SIM_CHECK(head.find("\r\nConnection: close") != std::string::npos, "http:response", "the connection is closed without notice");
            SIM_CHECK(head.find("\r\nContent-Type: text/plain") != std::string::npos, "http:response", "no content type");
            if (failed)
            {
                SIM_CHECK(body.starts_with("collector ") && body.ends_with(" failed"), "http:response", "the page of a failed collection is '%.40s'", body.c_str());
                return;
            }
            if (!page) SIM_CHECK(body == a.body, "http:response", "body '%.40s' instead of '%s'", body.c_str(), a.body);
            world->answered++;
        }
        sim::note_nontrivial();
        if (!a.body) check_page(body);
    }
    void send_pieces(int h, const std::string& s, u64 gap)
    {
        size_t i = 0;
        while (i < s.size())
        {
            size_t n = wc(0.3) ? s.size() - i : std::min<size_t>(s.size() - i, some_size(1, s.size() - i));
            if (sim::peer_send(h, s.data() + i, n) < 0) return;
            i += n;
            if (gap) sim::sleep_ns(wr(0, gap));
        }
    }
    // A client that sends one whole request and expects the answer.
    void good_client(bool must)
    {
        const Ask a = some_ask();
        const int h = sim::peer_connect(kPort);
        if (h < 0)
        {
            SIM_CHECK(!must, "http:refused", "connecting to the server failed: %d", -h);
            return;
        }
        send_pieces(h, a.text, wc(0.5) ? 0 : wr(1, 3000000));
        if (wc(0.2)) sim::peer_shutdown_write(h);
        std::string r;
        const bool strict = must || !(env->scarce || env->resets);
        bool ended = false;
        if (strict && !env->stopping_early)
            ended = read_all(h, r, 20 * sec, wc(0.2));
        else
        {
            // the answer may stay out, but what comes is right
            char b[2000];
            long n;
            while ((n = sim::peer_recv(h, b, sizeof b, 3 * sec)) > 0)
            {
                Quiet q;
                r.append(b, size_t(n));
            }
            ended = n == 0;
        }
        if (strict && !env->stopping_early)
        {
            SIM_CHECK(ended, "http:reset", "the connection of a complete request was reset after %zu bytes", r.size());
            check_response(a, r);
        }
        else if (ended && !r.empty() && !env->resets && !env->stopping_early && !env->scarce)
            check_response(a, r);
        sim::peer_close(h);
    }
    void bad_client()
    {
        const int h = sim::peer_connect(kPort);
        if (h < 0) return;
        std::string r;
        char b[1000];
        const Ask a = some_ask();
        switch (wr(0, 7))
        {
            case 0: sim::peer_reset(h); return;
            case 1: break;   // connects and leaves
            case 2:          // silent for long
                sim::sleep_ns(wr(1, 5000) * ms);
                break;
            case 3:          // half a request
                send_pieces(h, a.text.substr(0, wr(0, a.text.size() - 1)), 0);
                sim::sleep_ns(wr(0, 50) * ms);
                if (wc(0.5))
                {
                    sim::peer_reset(h);
                    return;
                }
                break;
            case 4:          // drips
                for (size_t i = 0; i < std::min<size_t>(a.text.size(), 40); ++i)
                {
                    if (sim::peer_send(h, a.text.data() + i, 1) < 0) break;
                    sim::sleep_ns(wr(0, 20 * ms));
                }
                break;
            case 5:          // a header without end
            {
                const std::string x = "GET /metrics HTTP/1.1\r\nX: " + std::string(11000, 'x');
                send_pieces(h, x, 0);
                const long n = sim::peer_recv(h, b, sizeof b, 20 * sec);
                if (!env->stopping_early && !env->scarce) SIM_CHECK(n != -EAGAIN && n <= 0, "http:oversized", "a request without end is not refused (%ld)", n);
                break;
            }
            case 6:          // asks and does not read
                send_pieces(h, a.text, 0);
                if (wc(0.5)) sim::sleep_ns(wr(1, 3000) * ms);
                if (wc(0.5))
                {
                    sim::peer_reset(h);
                    return;
                }
                break;
            default:         // more than asked for
                send_pieces(h, a.text + (a.text + std::string(wr(0, 3000), 'z')).substr(0, sim::knobs().sock_buf / 2), 0);
                while (sim::peer_recv(h, b, sizeof b, 5 * sec) > 0) {}
                break;
        }
        sim::peer_close(h);
    }
}  // namespace

SIM_SCENARIO(http)
{
    setup();
    const int before = sim::open_fds();
    World w;
    Env_ e;
    world = &w;
    env = &e;
    {
        const u64 n = wr(1, 3);
        const bool odd = wc(0.3), big = wc(0.15), throws = wc(0.15);
        for (u64 i = 0; i < n; ++i)
        {
            auto c = std::make_unique<Col>();
            c->id = i;
            c->nfam = wr(0, 4);
            c->nsamp = big ? wr(1, 60) : wr(0, 4);
            c->odd = odd;
            c->throws = throws ? wr(2, 4) : 0;
            w.throws = w.throws || throws;
            kio::MetricsRegistry<>::Instance().Register(std::make_shared<Collector>(c.get()));
            w.cols.push_back(std::move(c));
        }
    }
    IOPool* pool = nullptr;
    if (wc(0.2))
    {
        pool = new IOPool(1, WorkerConfig{});
        kio::MetricsRegistry<>::Instance().Register(std::make_shared<kio::io::WorkerMetricsCollector>(*pool->get_worker(0)));
    }
    sim::knobs().sock_buf = std::max<size_t>(sim::knobs().sock_buf, wc(0.3) ? 256 : 4096);
    const u64 ngood = wr(0, 5), nbad = wc(0.5) ? 0 : wr(1, 5);
    WorkerConfig cfg;
    static const u64 depths[] = {4, 8, 64, 1024};
    cfg.uring_queue_depth = wc(0.3) ? depths[wr(0, 1)] : depths[wr(2, 3)];
    cfg.default_op_slots = wc(0.3) ? wr(1, 4) : 64;
    cfg.max_op_slots = wc(0.15) ? wr(6, 10) : 1024 * 1024;
    cfg.task_queue_capacity = 16;
    e.scarce = cfg.uring_queue_depth < 2 * (ngood + nbad) + 8 || cfg.max_op_slots < 2 * (ngood + nbad) + 8;
    auto* srv = new kio::MetricsServer("127.0.0.1", kPort, cfg);
    if (wc(0.05))
    {
        // never started
        if (wc(0.5)) srv->stop();
        delete srv;
        delete pool;
        SIM_CHECK(sim::open_fds() == before, "http:leak", "%d descriptors left by a server never started", sim::open_fds() - before);
        return;
    }
    srv->start();
    if (wc(0.1)) srv->start();
    SIM_CHECK(srv->address() == "http://127.0.0.1:9090/metrics", "http:address", "%s", srv->address().c_str());
    e.stopping_early = wc(0.25);
    if (sim::chance(Conf, 0.4)) sim::set_fault(sim::F_ShortRead, 0.4);
    if (sim::chance(Conf, 0.4)) sim::set_fault(sim::F_ShortWrite, 0.4);
    if (sim::chance(Conf, 0.3))
    {
        // each takes a connection with it
        sim::set_fault(sim::F_AcceptFail, 0.3);
        e.resets = true;
    }
    if (sim::chance(Conf, 0.2)) sim::set_fault(sim::F_Emfile, 0.2);
    if (sim::chance(Conf, 0.1))
    {
        sim::set_fault(sim::F_ConnReset, 0.05);
        e.resets = true;
    }
    std::vector<std::thread> th;
    th.reserve(ngood + nbad + 1);
    for (u64 i = 0; i < ngood + nbad; ++i)
    {
        const bool good = i < ngood;
        const u64 pause = wc(0.5) ? 0 : wr(0, 2 * ms), rounds = wr(1, 3);
        th.emplace_back([good, pause, rounds] {
            for (u64 k = 0; k < rounds; ++k)
            {
                sim::sleep_ns(pause);
                if (good)
                    good_client(false);
                else
                    bad_client();
            }
        });
    }
    if (wc(0.2))
        th.emplace_back([] {
            for (u64 k = 0; k < 3; ++k)
            {
                try
                {
                    const std::string t = kio::MetricsRegistry<>::Instance().Scrape();
                    check_page(t);
                }
                catch (const std::runtime_error&)
                {
                    SIM_CHECK(world->throws, "http:throw", "a scrape failed though no collector does");
                }
                sim::sleep_ns(100000);
            }
        });
    if (!e.stopping_early)
    {
        for (auto& t: th) t.join();
        sim::faults_enabled(false);
        e.resets = false;
        sim::sleep_ns(10 * ms);
        // whatever happened before, a client alone with the server is served
        good_client(true);
    }
    else
        sim::sleep_ns(wc(0.3) ? 0 : wr(0, 20 * ms));
    if (wc(0.7)) srv->stop();
    if (wc(0.2)) srv->stop();
    if (wc(0.1)) srv->start();
    delete srv;
    if (e.stopping_early)
        for (auto& t: th) t.join();
    SIM_CHECK(sim::peer_connect(kPort) < 0, "http:open", "the server still accepts connections after its end");
    delete pool;
    SIM_CHECK(sim::open_fds() == before, "http:leak", "%d descriptors left after the end of the server", sim::open_fds() - before);
    SIM_CHECK(sim::inflight_ops() == 0, "http:ops", "operations are left in flight");
}
