// C15: the file manager.
#include "net_common.h"

#include <sys/stat.h>

#include "kio/fs/fs.h"
#include "kio/sync/sync_wait.h"

using namespace scen;
using kio::File;
using kio::FileManager;

namespace
{
    constexpr int kOpRead = 22, kOpWrite = 23, kOpOpen = 18;
    // A file on disk with its model. Each client owns a region of each file.
    struct Node
    {
        std::string name;                // relative to the working directory, no links
        std::vector<std::string> alias;  // other ways to write the path
        bool exists = false;
        bool maybe = false;              // an open that creates it is in flight
        std::string region[8];           // the known bytes of each region
        u64 id;
        std::map<int, int> worker;       // manager -> simulated thread of its worker
    };
    constexpr u64 kRegion = 4096;
    struct World
    {
        std::vector<Node> nodes;
        u64 pending = 0, done = 0, refused = 0;
        std::set<u64> objects;           // objects of the descriptors files hold
    };
    World* g;

    struct Seen
    {
        u64 n = 0;
        sim::OpRec last{};
    };
    Seen find(u64 mark, int opcode, u64 addr, int fd, u64 obj)
    {
        Quiet q;
        Seen s;
        for (u64 i = mark; i < sim::op_log_size(); ++i)
        {
            const auto& r = sim::op_log(i);
            if (r.user_data == ~0ull || r.opcode != opcode) continue;
            if (addr && r.addr != addr) continue;
            if (fd >= 0 && (r.fd != fd || r.obj != obj)) continue;
            s.n++;
            s.last = r;
        }
        return s;
    }
    void on_worker(Node* n, int mgr)
    {
        Quiet q;
        const int f = sim::fid();
        auto [it, fresh] = n->worker.try_emplace(mgr, f);
        SIM_CHECK(it->second == f, "file:worker", "file %s was first served by thread %d and now by thread %d", n->name.c_str(), it->second, f);
        if (!fresh) sim::probe("path served again");
    }
    void enter()
    {
        Quiet q;
        g->pending++;
    }
    void leave()
    {
        Quiet q;
        g->pending--;
        g->done++;
    }
    // One file held by a client.
    struct Held
    {
        File file;
        Node* node;
        int mgr, acc;
        u64 obj;
        Held(File&& f, Node* n, int m, int a) : file(std::move(f)), node(n), mgr(m), acc(a), obj(sim::fd_object(file.fd())) {}
    };
    struct Client
    {
        int id;
        std::vector<FileManager*>* mgrs;
        u64 ops;
        std::vector<std::unique_ptr<Held>> held;
        u64 version = 1;
    };
    Task<void> do_open(Client* c)
    {
        const int mgr = int(wr(0, c->mgrs->size() - 1));
        Node* n = &g->nodes[wr(0, g->nodes.size() - 1)];
        std::string path;
        int acc, flags;
        bool existed;
        {
            Quiet q;
            const u64 a = wr(0, n->alias.size());
            path = a ? n->alias[a - 1] : n->name;
        }
        acc = int(wr(0, 2));
        flags = acc == 0 ? O_RDONLY : acc == 1 ? O_WRONLY : O_RDWR;
        const bool creat = wc(0.6), excl = creat && wc(0.15);
        if (creat) flags |= O_CREAT;
        if (excl) flags |= O_EXCL;
        bool maybe;
        {
            Quiet q;
            existed = n->exists;
            maybe = n->maybe;
            if (creat) n->maybe = true;
        }
        const u64 mark = sim::op_log_size();
        const int caller = sim::fid();
        enter();
        auto res = co_await (*c->mgrs)[size_t(mgr)]->async_open(std::filesystem::path(path), flags, 0640);
        leave();
        (void)mark;
        (void)caller;
        on_worker(n, mgr);
        if (!res)
        {
            const int e = res.error().value;
            SIM_CHECK(res.error() == kio::Error::from_errno(e), "file:error", "the error has the wrong category");
            Quiet q;
            if (e == ENOENT)
                SIM_CHECK(!creat && !existed, "file:open", "opening %s failed with ENOENT, it exists or was to be created", path.c_str());
            else if (e == EEXIST)
                SIM_CHECK(excl && (n->exists || n->maybe), "file:open", "opening %s failed with EEXIST", path.c_str());
            else if (e == EAGAIN)
                g->refused++;
            else
                SIM_CHECK(e == EIO || e == EMFILE || e == ENOSPC, "file:error", "opening failed with error %d, which nothing caused", e);
            co_return;
        }
        SIM_CHECK(creat || existed || maybe || n->exists || n->maybe, "file:open", "opening a missing file without O_CREAT succeeded");
        SIM_CHECK(!(excl && existed), "file:open", "O_EXCL opened an existing file");
        const int fd = res->fd();
        {
            Quiet q;
            n->exists = true;
            const u64 o = sim::fd_object(fd);
            SIM_CHECK(o && std::string(sim::fd_desc(fd)).rfind("file:", 0) == 0, "file:fd", "the file's descriptor %d is %s", fd, sim::fd_desc(fd));
            SIM_CHECK(g->objects.insert(o).second, "file:fd", "two files share a descriptor");
        }
        const int got = ::fcntl(fd, F_GETFL) & O_ACCMODE;
        SIM_CHECK(got == (flags & O_ACCMODE), "file:flags", "opened with access mode %d instead of %d", got, flags & O_ACCMODE);
        struct stat st, want;
        ::fstat(fd, &st);
        ::stat(n->name.c_str(), &want);
        SIM_CHECK(st.st_ino == want.st_ino && st.st_dev == want.st_dev, "file:open", "opening %s opened another file", path.c_str());
        if (!existed && !maybe) SIM_CHECK((st.st_mode & 0777) == 0640, "file:flags", "created with mode %o", unsigned(st.st_mode & 0777));
        auto h = std::make_unique<Held>(std::move(*res), n, mgr, acc);
        c->held.push_back(std::move(h));
    }
    Task<void> do_io(Client* c)
    {
        Held& h = *c->held[wr(0, c->held.size() - 1)];
        const bool write = h.acc == 1 || (h.acc == 2 && wc(0.5));
        const u64 base = u64(c->id) * kRegion;
        const u64 off = wc(0.3) ? 0 : wr(0, kRegion - 1);
        const u64 len = std::min(some_size(0, kRegion), kRegion - off);
        const int fd = h.file.fd();
        const u64 mark = sim::op_log_size();
        std::string buf;
        Result<size_t> res = size_t(0);
        if (write)
        {
            buf = stream_data(h.node->id * 1000003 + u64(c->id) * 10007 + c->version++, 0, len);
            const std::string copy = buf;
            enter();
            res = co_await h.file.async_write(std::span<const char>(buf.data(), buf.size()), base + off);
            leave();
            SIM_CHECK(buf == copy, "file:buffer", "a write changed its buffer");
        }
        else
        {
            buf.assign(len, '\x5a');
            enter();
            res = co_await h.file.async_read(std::span<char>(buf.data(), buf.size()), base + off);
            leave();
        }
        on_worker(h.node, h.mgr);
        SIM_CHECK(h.file.fd() == fd && sim::fd_object(fd) == h.obj, "file:fd", "the descriptor changed");
        if (!res && res.error().value == EAGAIN)
        {
            Quiet q;
            g->refused++;
            co_return;
        }
        const Seen s = find(mark, write ? kOpWrite : kOpRead, u64(buf.data()), fd, h.obj);
        SIM_CHECK(s.n == 1, "file:count", "a %s call was performed %llu times on its descriptor and buffer", write ? "write" : "read", (unsigned long long)s.n);
        SIM_CHECK(s.last.off == base + off && s.last.len == len, "file:args", "offset %llu length %llu became %llu, %llu", (unsigned long long)(base + off), (unsigned long long)len, (unsigned long long)s.last.off, (unsigned long long)s.last.len);
        const i64 r = res ? i64(*res) : -i64(res.error().value);
        SIM_CHECK(r == s.last.res, "file:result", "the call returned %lld, its own result is %lld", (long long)r, (long long)s.last.res);
        SIM_CHECK(s.last.state == 2, "file:early", "the call returned before the kernel completed it");
        Quiet q;
        std::string& m = h.node->region[c->id];
        if (r > 0 && write)
        {
            if (m.size() < off + u64(r)) m.resize(off + u64(r), 0);
            memcpy(m.data() + off, buf.data(), size_t(r));
            sim::note_nontrivial();
        }
        if (!write)
        {
            for (u64 i = 0; i < len; ++i)
            {
                if (i64(i) < r)
                {
                    const char want = off + i < m.size() ? m[off + i] : 0;
                    SIM_CHECK(buf[i] == want, "file:content", "read of %s at %llu: wrong byte at %llu", h.node->name.c_str(), (unsigned long long)(base + off), (unsigned long long)i);
                }
                else
                    SIM_CHECK(buf[i] == '\x5a', "file:buffer", "a read of %lld bytes changed byte %llu of the buffer", (long long)r, (unsigned long long)i);
            }
            if (r == 0 && len > 0) SIM_CHECK(off >= m.size(), "file:eof", "end of file inside written data");
            if (r > 0) sim::note_nontrivial();
        }
    }
    void closed(u64 obj, int fd)
    {
        SIM_CHECK(sim::fd_object(fd) != obj, "file:leak", "the descriptor of a closed file is open");
        Quiet q;
        g->objects.erase(obj);
    }
    void do_move(Client* c)
    {
        Held& a = *c->held[wr(0, c->held.size() - 1)];
        switch (wr(0, 3))
        {
            case 0:
            {
                // into a new object and back
                const int fd = a.file.fd();
                File x(std::move(a.file));
                SIM_CHECK(x.fd() == fd && sim::fd_object(fd) == a.obj, "file:move", "a moved file changed its descriptor");
                SIM_CHECK(a.file.fd() == -1, "file:move", "a moved-from file still has a descriptor");
                a.file = std::move(x);
                SIM_CHECK(a.file.fd() == fd && sim::fd_object(fd) == a.obj, "file:move", "a moved file changed its descriptor");
                break;
            }
            case 1:
            {
                File& self = a.file;
                a.file = std::move(self);
                SIM_CHECK(sim::fd_object(a.file.fd()) == a.obj, "file:move", "assigning a file to itself closed it");
                break;
            }
            case 2:
            {
                // over another file, which is closed
                const u64 k = wr(0, c->held.size() - 1);
                Held& b = *c->held[k];
                if (&a == &b) return;
                const int fb = b.file.fd();
                const u64 ob = b.obj;
                b.file = std::move(a.file);
                closed(ob, fb);
                b.node = a.node;
                b.mgr = a.mgr;
                b.acc = a.acc;
                b.obj = a.obj;
                SIM_CHECK(sim::fd_object(b.file.fd()) == b.obj, "file:move", "a moved file changed its descriptor");
                sim::probe("file assigned over another");
                c->held.erase(std::find_if(c->held.begin(), c->held.end(), [&](auto& p) { return p.get() == &a; }));
                break;
            }
            default:
            {
                const int fd = a.file.fd();
                const u64 o = a.obj;
                if (wc(0.5))
                {
                    a.file.close();
                    closed(o, fd);
                    a.file.close();
                    SIM_CHECK(a.file.fd() == -1, "file:close", "a closed file has a descriptor");
                }
                c->held.erase(std::find_if(c->held.begin(), c->held.end(), [&](auto& p) { return p.get() == &a; }));
                closed(o, fd);
                break;
            }
        }
    }
    Task<void> client(Client* c)
    {
        Frame f;
        for (u64 i = 0; i < c->ops; ++i)
        {
            const u64 k = wr(0, 9);
            if (c->held.empty() || k < 2)
                co_await do_open(c);
            else if (k < 8)
                co_await do_io(c);
            else
                do_move(c);
        }
        while (!c->held.empty())
        {
            const int fd = c->held.back()->file.fd();
            const u64 o = c->held.back()->obj;
            c->held.pop_back();
            closed(o, fd);
        }
    }
    DetachedTask run_client(Client* c, std::atomic<int>* left)
    {
        co_await client(c);
        left->fetch_sub(1);
    }
}  // namespace

SIM_SCENARIO(files)
{
    setup(0.1);
    LeakCheck leak;
    sim::set_bad_close_check(true);
    World world;
    g = &world;
    const int before = sim::open_fds();
    {
        Quiet q;
        sim::faults_enabled(false);
    }
    ::mkdir("d", 0755);
    ::mkdir("d/e", 0755);
    ::mkdir("x", 0755);
    ::symlink("d", "l");
    ::symlink("../d/e", "x/m");
    {
        Quiet q;
        const u64 n = wr(1, 5);
        for (u64 i = 0; i < n; ++i)
        {
            Node nd;
            nd.id = i;
            const std::string f = "f" + std::to_string(wr(0, 99)) + "_" + std::to_string(i);
            switch (wr(0, 2))
            {
                case 0:
                    nd.name = f;
                    nd.alias = {"./" + f, "d/../" + f, "/sim/" + f, "x//.././" + f};
                    break;
                case 1:
                    nd.name = "d/" + f;
                    nd.alias = {"l/" + f, "./d//" + f, "d/e/../" + f, "/sim/x/../l/" + f};
                    break;
                default:
                    nd.name = "d/e/" + f;
                    nd.alias = {"x/m/" + f, "l/e/" + f, "/sim/d/./e/" + f};
                    break;
            }
            world.nodes.push_back(nd);
        }
    }
    for (auto& nd: world.nodes)
        if (wc(0.4))
        {
            write_file(nd.name, "");
            nd.exists = true;
        }
    {
        Quiet q;
        sim::faults_enabled(true);
    }
    WorkerConfig cfg{};
    cfg.uring_queue_depth = 1u << wr(2, 6);
    cfg.default_op_slots = wr(8, 64);
    std::vector<FileManager*> mgrs;
    const u64 nm = wc(0.3) ? 2 : 1;
    for (u64 i = 0; i < nm; ++i) mgrs.push_back(new FileManager(wr(1, 3), cfg));
    if (sim::chance(Conf, 0.4)) sim::set_fault(sim::F_ShortRead, 0.2);
    if (sim::chance(Conf, 0.4)) sim::set_fault(sim::F_ShortWrite, 0.2);
    if (sim::chance(Conf, 0.3)) sim::set_fault(sim::F_Eio, 0.05);
    if (sim::chance(Conf, 0.15)) sim::set_fault(sim::F_Emfile, 0.1);
    if (sim::chance(Conf, 0.1)) sim::set_fault(sim::F_Enospc, 0.1);
    const int nc = int(wr(1, 4));
    std::vector<Client> cl(static_cast<size_t>(nc));
    std::atomic<int> left{0};
    std::vector<std::thread> th;
    th.reserve(size_t(nc));
    for (int i = 0; i < nc; ++i)
    {
        cl[size_t(i)].id = i;
        cl[size_t(i)].mgrs = &mgrs;
        cl[size_t(i)].ops = wr(2, 20);
    }
    for (int i = 0; i < nc; ++i)
    {
        Client* c = &cl[size_t(i)];
        if (wc(0.5))
            th.emplace_back([c] { kio::SyncWait(client(c)); });
        else
        {
            left.fetch_add(1);
            run_client(c, &left).detach();
        }
    }
    for (auto& t: th) t.join();
    while (left.load() != 0) sim::sleep_ns(100'000);
    sim::sleep_ns(ms);
    {
        Quiet q;
        SIM_CHECK(world.pending == 0, "file:pending", "%llu calls never finished", (unsigned long long)world.pending);
        SIM_CHECK(world.objects.empty(), "file:leak", "%zu files of the program are still open", world.objects.size());
        SIM_CHECK(Frame::live == 0, "file:frames", "%lld client coroutines left", (long long)Frame::live);
        sim::faults_enabled(false);
    }
    for (auto& nd: world.nodes)
    {
        struct stat st;
        const bool there = ::stat(nd.name.c_str(), &st) == 0;
        if (!there)
        {
            SIM_CHECK(!nd.exists, "file:content", "file %s is gone", nd.name.c_str());
            continue;
        }
        const std::string all = read_file(nd.name);
        Quiet q;
        u64 end = 0;
        for (u64 i = 0; i < 8; ++i)
        {
            const std::string& m = nd.region[i];
            if (m.empty()) continue;
            end = i * kRegion + m.size();
            SIM_CHECK(all.size() >= end && all.compare(i * kRegion, m.size(), m) == 0, "file:content", "region %llu of %s does not hold what was written", (unsigned long long)i, nd.name.c_str());
        }
        SIM_CHECK(all.size() == end, "file:content", "file %s has %zu bytes instead of %llu", nd.name.c_str(), all.size(), (unsigned long long)end);
    }
    {
        Quiet q;
        sim::faults_enabled(true);
    }
    for (auto* m: mgrs) delete m;
    SIM_CHECK(sim::open_fds() == before, "file:leak", "%d descriptors leaked", sim::open_fds() - before);
}
