// The simulated kernel: descriptors, eventfds, pipes, sockets, files with a durability model, and io_uring.
#include "int.h"

#include <arpa/inet.h>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <liburing.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <set>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/sendfile.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <algorithm>

#define EXP extern "C" SIM_API

namespace sim
{
    constexpr int kSimFds = 512;
    constexpr i64 kBlock = INT64_MIN;
    constexpr size_t kPipeCap = 65536;

    static long raw6(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
    {
        long r;
        register long r10 asm("r10") = d;
        register long r8 asm("r8") = e;
        register long r9 asm("r9") = f;
        asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
        return r;
    }
    static int g_last_errno[kMaxFibers];   // of the last system call that failed, per thread
    static long ret_errno(long r)
    {
        if (r < 0 && r > -4096)
        {
            errno = int(-r);
            if (g_running && g_cur) g_last_errno[g_cur->id] = int(-r);
            return -1;
        }
        return r;
    }
    int last_errno() { return g_last_errno[fid()]; }
    static inline bool on() { return g_running && g_cur; }

    struct Op;
    struct Ring;
    struct WaitQ
    {
        std::vector<Op*> ops;
    };
    struct Addr
    {
        int family = AF_INET;
        u8 ip[16] = {127, 0, 0, 1};
        u16 port = 0;
    };
    struct PipeBuf
    {
        u64 id;
        std::string data;
        size_t head = 0;
        int readers = 0, writers = 0;
        WaitQ wq;
        Clock* clk = nullptr;
        size_t avail() const { return data.size() - head; }
    };
    enum class SS { New, Bound, Listening, Connecting, Connected, Failed };
    struct Sock
    {
        u64 id = 0;
        SS st = SS::New;
        Addr local, peer;
        Sock* other = nullptr;
        std::string rx;
        size_t rx_head = 0;
        bool fin = false, rst = false, rst_reported = false, wr_shut = false, rd_shut = false, closed = false;
        u64 last_arrival = 0;
        size_t inflight = 0;  // sent to us, not yet arrived
        std::deque<Sock*> acceptq;
        int backlog = 0;
        int err = 0;
        bool reuse = false;
        bool slow = false;
        WaitQ wq;
        Clock* clk = nullptr;
        // kernel TLS: the stream is encrypted, and carries control records between the data
        bool ktx = false, krx = false;
        u64 arrived = 0;
        std::deque<std::pair<u64, int>> ctl;   // position in the stream, record
        size_t avail() const { return rx.size() - rx_head; }
        u64 consumed() const { return arrived - avail(); }
        bool at_ctl() const { return !ctl.empty() && ctl.front().first == consumed(); }
    };
    constexpr char kCipher = char(0xA5);
    struct Dirty
    {
        int kind;  // 0 write, 1 truncate, 2 extend
        u64 off;
        std::string data;
        u64 meta;  // metadata log position for kind 1 and 2
    };
    struct FileNode
    {
        u64 id;
        std::string synced;   // content at the last fsync
        std::vector<Dirty> dirty;
        u64 cur_size = 0;
        bool tracked = false;
    };
    enum class Kind { Event, Pipe, Sock, File, Ring };
    struct OpenFile
    {
        u64 id;
        Kind kind;
        int refs = 0;     // descriptors and in-flight operations
        int fdrefs = 0;
        u32 flags = 0;
        u64 pos = 0;
        u64 counter = 0;  // eventfd
        PipeBuf* pipe = nullptr;
        bool wr_end = false;
        Sock* sock = nullptr;
        FileNode* node = nullptr;
        int realfd = -1;
        Ring* ring = nullptr;
        std::string path;
        WaitQ wq;
        Clock* clk = nullptr;
    };
    static OpenFile* g_fd[kSimFds];
    static u64 g_next_id = 1;
    static KernelKnobs g_knobs;
    static bool g_bad_close = true;
    static u64 g_nbad_close = 0;
    static bool g_bad_use = false;
    static u64 g_unlinks = 0;
    static std::string g_root;       // as the program sees it: the same in every run
    static std::string g_real_root;  // the scratch directory, also the working directory

    KernelKnobs& knobs() { return g_knobs; }

    struct Ring
    {
        u64 id;
        int index;
        io_uring* user = nullptr;
        u32 sq_entries, cq_entries;
        u32 *sq_head, *sq_tail, *sq_flags, *sq_dropped, *sq_array, *cq_head, *cq_tail, *cq_flags, *cq_overflow;
        u32 *sq_mask, *cq_mask, *sq_ents, *cq_ents;
        io_uring_sqe* sqes;
        io_uring_cqe* cqes;
        std::deque<io_uring_cqe> overflow;
        u32 setup_flags;
        int submitter = -1;
        std::vector<Op*> inflight;
        u64 posted = 0;
        bool dead = false;
    };
    struct Op
    {
        Ring* ring;
        u64 ud;
        u8 opcode;
        int fd;
        OpenFile* of = nullptr;
        OpenFile* of2 = nullptr;
        u64 addr, off;
        u32 len, flags;
        i64 off_in = -1;
        int fd_in = -1;
        std::vector<iovec> iov;
        std::string path, path2;
        sockaddr_storage sa{};
        socklen_t salen = 0;
        __kernel_timespec ts{};
        size_t rec;
        bool done = false;       // result fixed
        bool posted = false;
        bool submitting = false;
        u64 fire_gen = 0;
        i64 res = 0;
        WaitQ* waiting = nullptr;
        u64 timeout_target = 0;
        bool wall_abs = false;   // a timeout at a wall-clock time
        bool started = false;
        Clock clk;               // what the submitter had done, and what the operation picked up
    };
    // Writing and reading an eventfd or a pipe orders memory like a release and an acquire.
    static Clock* g_exec_clk = nullptr;   // operation being executed; otherwise the running thread itself
    static void ksync_release(Clock*& c)
    {
        if (!c)
        {
            c = new Clock;
            c->clear();
        }
        if (g_exec_clk)
            c->join(*g_exec_clk);
        else if (g_cur)
            hb_release_join(*c);
    }
    static void ksync_acquire(Clock* c)
    {
        if (!c) return;
        if (g_exec_clk)
            g_exec_clk->join(*c);
        else if (g_cur)
            hb_acquire(*c);
    }
    static std::vector<OpRec>* g_log;
    static std::vector<Ring*>* g_rings;
    static std::vector<Sock*>* g_listeners;
    static std::vector<Sock*>* g_peers;
    static u16 g_next_port = 40000;
    static u64 g_kops = 0;

    size_t op_log_size() { return g_log->size(); }
    const OpRec& op_log(size_t i) { return (*g_log)[i]; }
    u64 inflight_ops(int opcode)
    {
        u64 n = 0;
        for (Ring* r: *g_rings)
            for (Op* o: r->inflight)
                if (opcode < 0 || o->opcode == opcode) ++n;
        return n;
    }
    u64 bad_closes() { return g_nbad_close; }
    void set_bad_close_check(bool b) { g_bad_close = b; }
    void set_bad_fd_check(bool b) { g_bad_use = b; }
    u64 unlinks() { return g_unlinks; }

    // ---- file model ------------------------------------------------------------------------------------------------
    struct MetaOp
    {
        int kind;  // 0 create, 1 unlink, 2 rename, 3 mkdir, 4 rmdir, 5 size change
        std::string a, b;
        FileNode* node;
    };
    struct Ent
    {
        bool dir;
        FileNode* node;
    };
    static std::map<std::string, Ent>* g_ns;       // now
    static std::map<std::string, Ent>* g_ns_base;  // durable
    static std::vector<MetaOp>* g_meta;            // since g_ns_base; entries below g_meta_committed are durable
    static size_t g_meta_committed = 0;
    static u64 g_meta_base = 0;                    // global index of g_meta[0]
    static std::string g_fault_path;

    static std::string norm(const char* p)
    {
        std::string s = p;
        if (s.size() > g_root.size() && s.compare(0, g_root.size(), g_root) == 0 && s[g_root.size()] == '/') s = s.substr(g_root.size() + 1);
        else if (s == g_root) s = ".";
        std::string out;
        size_t i = 0;
        if (!s.empty() && s[0] == '/') return s;
        std::vector<std::string> parts;
        while (i <= s.size())
        {
            size_t j = s.find('/', i);
            if (j == std::string::npos) j = s.size();
            std::string c = s.substr(i, j - i);
            if (c == "..")
            {
                if (!parts.empty()) parts.pop_back();
            }
            else if (!c.empty() && c != ".")
                parts.push_back(c);
            i = j + 1;
        }
        for (auto& c: parts) out += (out.empty() ? "" : "/") + c;
        return out.empty() ? "." : out;
    }
    // A path of the program as the real system calls take it.
    static const char* tr(const char* p)
    {
        if (strncmp(p, "/sim", 4)) return p;
        if (!p[4]) return ".";
        if (p[4] != '/') return p;
        p += 4;
        while (*p == '/') ++p;
        return *p ? p : ".";
    }
    static bool in_scratch(const char* p)
    {
        if (!on() || g_root.empty()) return false;
        if (p[0] != '/') return true;
        return !strncmp(p, g_root.c_str(), g_root.size()) && (p[g_root.size()] == '/' || p[g_root.size()] == 0);
    }
    const char* disk_root() { return g_root.c_str(); }
    void disk_faults_on_path(const char* s) { g_fault_path = s; }
    static bool faultable(const std::string& path) { return g_fault_path.empty() || path.find(g_fault_path) != std::string::npos; }

    static void apply_meta(std::map<std::string, Ent>& ns, const MetaOp& m)
    {
        switch (m.kind)
        {
            case 0: ns[m.a] = {false, m.node}; break;
            case 1:
            case 4: ns.erase(m.a); break;
            case 2:
            {
                auto it = ns.find(m.a);
                if (it != ns.end())
                {
                    Ent e = it->second;
                    ns.erase(it);
                    ns[m.b] = e;
                    if (e.dir)
                    {
                        std::vector<std::pair<std::string, Ent>> mv;
                        const std::string pre = m.a + "/";
                        for (auto i2 = ns.lower_bound(pre); i2 != ns.end() && i2->first.compare(0, pre.size(), pre) == 0;)
                        {
                            mv.push_back({m.b + "/" + i2->first.substr(pre.size()), i2->second});
                            i2 = ns.erase(i2);
                        }
                        for (auto& x: mv) ns[x.first] = x.second;
                    }
                }
                break;
            }
            case 3: ns[m.a] = {true, nullptr}; break;
            default: break;
        }
    }
    static u64 meta_push(MetaOp m)
    {
        apply_meta(*g_ns, m);
        g_meta->push_back(m);
        return g_meta_base + g_meta->size() - 1;
    }
    static void apply_dirty(std::string& c, const Dirty& d)
    {
        if (d.kind == 0)
        {
            if (c.size() < d.off + d.data.size()) c.resize(d.off + d.data.size(), 0);
            memcpy(c.data() + d.off, d.data.data(), d.data.size());
        }
        else if (d.kind == 1)
            c.resize(d.off, 0);
        else if (c.size() < d.off)
            c.resize(d.off, 0);
    }
    static void node_sync(FileNode* n)
    {
        for (auto& d: n->dirty) apply_dirty(n->synced, d);
        n->dirty.clear();
        g_meta_committed = g_meta->size();
    }
    static std::string read_real(const char* path)
    {
        std::string out;
        const long fd = raw6(SYS_openat, AT_FDCWD, (long)tr(path), O_RDONLY | O_CLOEXEC);
        if (fd < 0) return out;
        char buf[65536];
        long n;
        while ((n = raw6(SYS_read, fd, (long)buf, sizeof buf)) > 0) out.append(buf, size_t(n));
        raw6(SYS_close, fd);
        return out;
    }
    static void write_real(const std::string& path, const std::string& c)
    {
        const long fd = raw6(SYS_openat, AT_FDCWD, (long)tr(path.c_str()), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
        if (fd < 0) sim_error("cannot restore %s: %ld", path.c_str(), fd);
        size_t p = 0;
        while (p < c.size())
        {
            const long n = raw6(SYS_write, fd, (long)(c.data() + p), long(c.size() - p));
            if (n <= 0) sim_error("cannot restore %s", path.c_str());
            p += size_t(n);
        }
        raw6(SYS_close, fd);
    }
    void disk_sync_all()
    {
        In in;
        for (auto& e: *g_ns)
            if (e.second.node) node_sync(e.second.node);
        *g_ns_base = *g_ns;
        g_meta_base += g_meta->size();
        g_meta->clear();
        g_meta_committed = 0;
    }
    void disk_crash()
    {
        In in;
        count_fault(F_Crash);
        const u64 mode = decide(Env, 4);  // 0 all survives, 1 only what was synced, 2 a prefix, 3 anything
        const size_t total = g_meta->size();
        size_t commit = total;
        if (mode == 1) commit = g_meta_committed;
        if (mode >= 2) commit = total - size_t(decide(Env, total - g_meta_committed + 1));
        std::map<std::string, Ent> ns = *g_ns_base;
        for (size_t i = 0; i < commit; ++i) apply_meta(ns, (*g_meta)[i]);
        const u64 commit_no = g_meta_base + commit;
        tracef("disk crash mode %llu, %zu of %zu metadata operations survive", (unsigned long long)mode, commit, total);
        for (auto& e: ns)
        {
            FileNode* n = e.second.node;
            if (!n) continue;
            std::string c = n->synced;
            size_t keep = n->dirty.size();
            if (mode == 1) keep = 0;
            if (mode == 2) keep = n->dirty.size() - size_t(decide(Env, n->dirty.size() + 1));
            for (size_t i = 0; i < n->dirty.size(); ++i)
            {
                const Dirty& d = n->dirty[i];
                if (d.kind != 0)
                {
                    if (d.meta < commit_no) apply_dirty(c, d);
                    continue;
                }
                if (mode == 0 || (mode == 2 && i < keep))
                {
                    apply_dirty(c, d);
                    continue;
                }
                if (mode == 1)
                {
                    count_fault(F_LostWrite);
                    continue;
                }
                if (mode == 2)
                {
                    if (i == keep && d.data.size() > 1 && chance(Env, 0.6))
                    {
                        Dirty t = d;
                        t.data.resize(d.data.size() - size_t(1 + decide(Env, d.data.size() - 1)));
                        apply_dirty(c, t);
                        count_fault(F_TornWrite);
                    }
                    else
                        count_fault(F_LostWrite);
                    continue;
                }
                // any subset of sectors
                const u64 how = decide(Env, 3);  // 0 kept, 1 lost, 2 some sectors
                if (how == 0)
                    apply_dirty(c, d);
                else if (how == 1)
                    count_fault(F_LostWrite);
                else
                {
                    count_fault(F_TornWrite);
                    u64 p = d.off;
                    const u64 end = d.off + d.data.size();
                    const u64 sector = chance(Env, 0.5) ? 512 : 4096;
                    while (p < end)
                    {
                        const u64 q = std::min(end, (p / sector + 1) * sector);
                        if (chance(Env, 0.5)) apply_dirty(c, Dirty{0, p, d.data.substr(p - d.off, q - p), 0});
                        p = q;
                    }
                }
            }
            n->synced = c;
            n->dirty.clear();
        }
        // materialise
        for (auto it = g_ns->rbegin(); it != g_ns->rend(); ++it)
            if (!it->second.dir) raw6(SYS_unlink, (long)it->first.c_str());
        for (auto it = g_ns->rbegin(); it != g_ns->rend(); ++it)
            if (it->second.dir && !ns.count(it->first)) raw6(SYS_rmdir, (long)it->first.c_str());
        for (auto& e: ns)
            if (e.second.dir) raw6(SYS_mkdir, (long)e.first.c_str(), 0755);
        for (auto& e: ns)
            if (!e.second.dir)
            {
                const size_t sl = e.first.rfind('/');
                if (sl != std::string::npos && !ns.count(e.first.substr(0, sl))) continue;
                write_real(e.first, e.second.node->synced);
                e.second.node->cur_size = e.second.node->synced.size();
            }
        *g_ns = ns;
        *g_ns_base = ns;
        g_meta->clear();
        g_meta_committed = 0;
    }
    void disk_flip(const char* path, u64 off, u8 mask)
    {
        In in;
        std::string c = read_real(path);
        if (off >= c.size()) return;
        c[off] = char(c[off] ^ mask);
        write_real(path, c);
        auto it = g_ns->find(norm(path));
        if (it != g_ns->end() && it->second.node)
        {
            it->second.node->synced = c;
            it->second.node->dirty.clear();
        }
        count_fault(F_BitFlip);
    }
    void disk_truncate(const char* path, u64 len)
    {
        In in;
        raw6(SYS_truncate, (long)tr(path), (long)len);
        auto it = g_ns->find(norm(path));
        if (it != g_ns->end() && it->second.node)
        {
            it->second.node->synced.resize(len);
            it->second.node->dirty.clear();
            it->second.node->cur_size = len;
        }
        count_fault(F_Truncate);
    }

    // ---- descriptors -------------------------------------------------------------------------------------------------
    static int fd_alloc(OpenFile* of)
    {
        for (int i = 3; i < kSimFds; ++i)
            if (!g_fd[i])
            {
                g_fd[i] = of;
                of->refs++;
                of->fdrefs++;
                return i;
            }
        return -EMFILE;
    }
    static OpenFile* of_new(Kind k)
    {
        OpenFile* o = new OpenFile();
        o->id = g_next_id++;
        o->kind = k;
        return o;
    }
    static OpenFile* fd_get(int fd) { return fd >= 0 && fd < kSimFds ? g_fd[fd] : nullptr; }
    static bool is_sim_fd(int fd) { return on() && fd >= 3 && fd < kSimFds; }

    static void start_exec(Op* op, u64 delay);
    static void exec_op(void* a);
    static u64 op_delay();

    static void notify(WaitQ& q)
    {
        if (!q.ops.empty())
        {
            std::vector<Op*> v;
            v.swap(q.ops);
            for (Op* o: v)
            {
                o->waiting = nullptr;
                start_exec(o, 1 + decide_p(Env, 5, 0.6) * 700);
            }
        }
        wake_key((u64)&q, kMaxFibers);
    }
    static void sock_close(Sock* s);
    static void ring_kill(Ring* r);
    static void of_unref(OpenFile* of)
    {
        if (--of->refs > 0) return;
        switch (of->kind)
        {
            case Kind::Pipe:
                if (of->wr_end)
                    of->pipe->writers--;
                else
                    of->pipe->readers--;
                notify(of->pipe->wq);
                break;
            case Kind::Sock: sock_close(of->sock); break;
            case Kind::File:
                if (of->realfd >= 0) raw6(SYS_close, of->realfd);
                break;
            case Kind::Ring: ring_kill(of->ring); break;
            default: break;
        }
    }
    static std::string of_desc(OpenFile* of)
    {
        if (!of) return "closed";
        char b[96];
        switch (of->kind)
        {
            case Kind::Event: snprintf(b, sizeof b, "eventfd#%llu", (unsigned long long)of->id); break;
            case Kind::Pipe: snprintf(b, sizeof b, "pipe#%llu%s", (unsigned long long)of->pipe->id, of->wr_end ? "w" : "r"); break;
            case Kind::Sock: snprintf(b, sizeof b, "socket#%llu", (unsigned long long)of->sock->id); break;
            case Kind::Ring: snprintf(b, sizeof b, "ring#%llu", (unsigned long long)of->id); break;
            default: return "file:" + of->path;
        }
        return b;
    }
    int open_fds()
    {
        int n = 0;
        for (int i = 3; i < kSimFds; ++i)
            if (g_fd[i]) ++n;
        return n;
    }
    const char* fd_desc(int fd)
    {
        In in;
        static std::string s;
        OpenFile* o = fd_get(fd);
        s = o ? of_desc(o) : "";
        return s.c_str();
    }
    u64 fd_object(int fd)
    {
        OpenFile* o = fd_get(fd);
        return o ? o->id : 0;
    }
    static i64 k_close(int fd)
    {
        OpenFile* o = fd_get(fd);
        if (!o || fd < 3)
        {
            g_nbad_close++;
            if (g_bad_close) violation("fd:bad-close", "close of descriptor %d, which %s", fd, fd < 3 && fd >= 0 ? "the program never opened" : "is not open");
            return -EBADF;
        }
        if (tracing()) tracef("close fd %d (%s)", fd, of_desc(o).c_str());
        g_fd[fd] = nullptr;
        o->fdrefs--;
        if (o->kind == Kind::Sock && o->fdrefs == 0 && o->sock->st == SS::Listening)
        {
            // closing a listener does not wake pending accepts (they hold a reference)
        }
        of_unref(o);
        return 0;
    }

    // ---- sockets -----------------------------------------------------------------------------------------------------
    static Sock* sock_new()
    {
        Sock* s = new Sock();
        s->id = g_next_id++;
        return s;
    }
    static Addr addr_of(const sockaddr* sa, socklen_t len)
    {
        Addr a;
        a.family = sa->sa_family;
        if (sa->sa_family == AF_INET && len >= sizeof(sockaddr_in))
        {
            const auto* in = (const sockaddr_in*)sa;
            memcpy(a.ip, &in->sin_addr, 4);
            a.port = ntohs(in->sin_port);
        }
        else if (sa->sa_family == AF_INET6 && len >= sizeof(sockaddr_in6))
        {
            const auto* in = (const sockaddr_in6*)sa;
            memcpy(a.ip, &in->sin6_addr, 16);
            a.port = ntohs(in->sin6_port);
        }
        return a;
    }
    static socklen_t addr_to(const Addr& a, sockaddr_storage* out)
    {
        memset(out, 0, sizeof *out);
        if (a.family == AF_INET6)
        {
            auto* in = (sockaddr_in6*)out;
            in->sin6_family = AF_INET6;
            in->sin6_port = htons(a.port);
            memcpy(&in->sin6_addr, a.ip, 16);
            return sizeof *in;
        }
        auto* in = (sockaddr_in*)out;
        in->sin_family = AF_INET;
        in->sin_port = htons(a.port);
        memcpy(&in->sin_addr, a.ip, 4);
        return sizeof *in;
    }
    static void put_addr(const Addr& a, void* out, socklen_t* len)
    {
        if (!out || !len) return;
        kernel_access_check(len, sizeof *len, "writes an address length into");
        sockaddr_storage ss;
        const socklen_t n = addr_to(a, &ss);
        const socklen_t k = std::min(*len, n);
        kernel_access_check(out, k, "writes an address into");
        memcpy(out, &ss, k);
        *len = n;
    }
    static u64 net_delay() { return 1 + decide_p(Env, 6, 0.5) * g_knobs.net_delay / 3 + g_knobs.net_delay; }

    struct Pkt
    {
        Sock* to;
        int kind;  // 0 data, 1 fin, 2 rst, 3 control record
        std::string data;
    };
    static void pkt_arrive(void* a)
    {
        Pkt* p = (Pkt*)a;
        Sock* s = p->to;
        if (p->kind == 0)
        {
            s->inflight -= p->data.size();
            if (s->closed)
            {
                if (s->other && !s->other->rst)
                {
                    s->other->rst = true;
                    notify(s->other->wq);
                }
                return;
            }
            if (s->rst) return;
            s->rx += p->data;
            s->arrived += p->data.size();
        }
        else if (p->kind == 3)
        {
            if (!s->closed && !s->rst) s->ctl.emplace_back(s->arrived, p->data[0]);
        }
        else if (p->kind == 1)
            s->fin = true;
        else
            s->rst = true;
        notify(s->wq);
    }
    static void pkt_send(Sock* to, int kind, const void* d, size_t n)
    {
        Pkt* p = new Pkt{to, kind, std::string((const char*)d, n)};
        u64 t = g_now + net_delay();
        if (kind == 2)
            t = g_now + g_knobs.net_delay;  // resets may overtake nothing: keep order as well
        if (t <= to->last_arrival) t = to->last_arrival + 1;
        to->last_arrival = t;
        if (kind == 0) to->inflight += n;
        at(t, pkt_arrive, p);
    }
    static void sock_close(Sock* s)
    {
        if (s->closed) return;
        s->closed = true;
        if (s->st == SS::Listening)
        {
            for (size_t i = 0; i < g_listeners->size(); ++i)
                if ((*g_listeners)[i] == s)
                {
                    g_listeners->erase(g_listeners->begin() + long(i));
                    break;
                }
            for (Sock* c: s->acceptq) pkt_send(c->other, 2, "", 0);
        }
        if (s->st == SS::Connected && s->other && !s->rst)
        {
            if (s->avail() > 0 || s->at_ctl())
                pkt_send(s->other, 2, "", 0);
            else if (!s->wr_shut)
                pkt_send(s->other, 1, "", 0);
        }
        notify(s->wq);
    }
    static i64 sock_send(Sock* s, const char* d, size_t n, bool faults)
    {
        if (s->st != SS::Connected) return s->st == SS::New || s->st == SS::Connecting ? -ENOTCONN : -EPIPE;
        if (s->rst)
        {
            if (!s->rst_reported)
            {
                s->rst_reported = true;
                return -ECONNRESET;
            }
            return -EPIPE;
        }
        if (s->wr_shut) return -EPIPE;
        if (n == 0) return 0;
        if (faults && fault(F_SockEintr)) return -EINTR;
        if (faults && fault(F_ConnReset))
        {
            pkt_send(s->other, 2, "", 0);
            s->rst = s->rst_reported = true;
            notify(s->wq);
            return -ECONNRESET;
        }
        Sock* o = s->other;
        const size_t used = o->avail() + o->inflight;
        if (used >= g_knobs.sock_buf) return kBlock;
        size_t k = std::min(n, g_knobs.sock_buf - used);
        if (k < n) probe("socket buffer full: partial send");
        if (faults && k > 1 && fault(F_ShortWrite)) k = k - 1 - size_t(decide(Env, k - 1));
        if (k == 0) k = 1;
        size_t p = 0;
        while (p < k)
        {
            size_t c = k - p;
            if (c > 1 && fault(F_Fragment)) c = 1 + size_t(decide(Env, c - 1));
            if (s->ktx)
            {
                std::string e(d + p, c);
                for (char& x: e) x ^= kCipher;
                pkt_send(o, 0, e.data(), c);
            }
            else
                pkt_send(o, 0, d + p, c);
            p += c;
        }
        return i64(k);
    }
    static i64 sock_recv(Sock* s, char* d, size_t n, bool faults, bool peek)
    {
        if (s->st == SS::Listening) return -ENOTCONN;
        if (s->st != SS::Connected) return -ENOTCONN;
        if (s->rst && s->avail() == 0)
        {
            if (!s->rst_reported)
            {
                s->rst_reported = true;
                return -ECONNRESET;
            }
            return 0;
        }
        if (s->rst && !s->rst_reported && s->avail() > 0)
        {
            // a reset discards what was queued
            s->rst_reported = true;
            s->rx.clear();
            s->rx_head = 0;
            s->ctl.clear();
            return -ECONNRESET;
        }
        if (s->at_ctl() && !s->rst)
        {
            if (s->krx) return -EIO;   // a record that is not data needs recvmsg with a control buffer
            s->ctl.pop_front();
            if (n) d[0] = 0x15;
            return n ? 1 : 0;
        }
        if (s->avail())
        {
            size_t k = std::min(n, s->avail());
            if (!s->ctl.empty()) k = size_t(std::min<u64>(k, s->ctl.front().first - s->consumed()));
            if (faults && fault(F_SockEintr)) return -EINTR;
            if (faults && k > 1 && fault(F_ShortRead)) k = k - 1 - size_t(decide(Env, k - 1));
            if (k == 0 && n) k = 1;
            memcpy(d, s->rx.data() + s->rx_head, k);
            if (s->krx)
                for (size_t i = 0; i < k; ++i) d[i] ^= kCipher;
            if (!peek)
            {
                s->rx_head += k;
                if (s->rx_head == s->rx.size())
                {
                    s->rx.clear();
                    s->rx_head = 0;
                }
                if (s->other) notify(s->other->wq);
            }
            return i64(k);
        }
        if (s->fin || s->rd_shut) return 0;
        if (n == 0) return 0;
        return kBlock;
    }
    static Sock* find_listener(const Addr& a)
    {
        std::vector<Sock*> c;
        for (Sock* s: *g_listeners)
            if (s->local.port == a.port) c.push_back(s);
        if (c.empty()) return nullptr;
        return c[decide(Env, c.size())];
    }
    struct Syn
    {
        Sock* s;
        int tries;
    };
    static void syn_arrive(void* a)
    {
        Syn* y = (Syn*)a;
        Sock* s = y->s;
        if (s->closed || s->st != SS::Connecting) return;
        Sock* l = find_listener(s->peer);
        if (!l || fault(F_ConnRefused))
        {
            s->st = SS::Failed;
            s->err = ECONNREFUSED;
            notify(s->wq);
            return;
        }
        if (l->acceptq.size() > size_t(std::max(0, l->backlog)))
        {
            if (++y->tries > 6)
            {
                s->st = SS::Failed;
                s->err = ETIMEDOUT;
                notify(s->wq);
                return;
            }
            at(g_now + (1000000000ull << (y->tries - 1)), syn_arrive, y);
            probe("listen backlog full");
            return;
        }
        Sock* c = sock_new();
        c->st = SS::Connected;
        c->local = l->local;
        c->peer = s->local;
        c->other = s;
        s->other = c;
        s->st = SS::Connected;
        l->acceptq.push_back(c);
        notify(l->wq);
        notify(s->wq);
    }
    static void sock_connect(Sock* s, const Addr& a)
    {
        if (s->local.port == 0)
        {
            s->local.family = a.family;
            if (a.family == AF_INET6)
            {
                memset(s->local.ip, 0, 16);
                s->local.ip[15] = 1;
            }
            s->local.port = g_next_port++;
        }
        s->peer = a;
        s->st = SS::Connecting;
        at(g_now + net_delay(), syn_arrive, new Syn{s, 0});
    }
    static i64 sock_bind(Sock* s, const Addr& a)
    {
        if (s->st != SS::New) return -EINVAL;
        Addr b = a;
        if (b.port == 0) b.port = g_next_port++;
        else
            for (Sock* l: *g_listeners)
                if (l->local.port == b.port && !(l->reuse && s->reuse)) return -EADDRINUSE;
        s->local = b;
        s->st = SS::Bound;
        return 0;
    }
    static i64 sock_listen(Sock* s, int backlog)
    {
        if (s->st == SS::New)
        {
            Addr a;
            sock_bind(s, a);
        }
        if (s->st != SS::Bound && s->st != SS::Listening) return -EINVAL;
        if (s->st == SS::Bound)
        {
            for (Sock* l: *g_listeners)
                if (l->local.port == s->local.port && !(l->reuse && s->reuse)) return -EADDRINUSE;
            g_listeners->push_back(s);
        }
        s->st = SS::Listening;
        s->backlog = backlog;
        return 0;
    }
    static short sock_poll(Sock* s)
    {
        short r = 0;
        if (s->st == SS::Listening)
        {
            if (!s->acceptq.empty()) r |= POLLIN;
            return r;
        }
        if (s->st == SS::Failed) return POLLIN | POLLOUT | POLLERR | POLLHUP;
        if (s->st != SS::Connected) return s->st == SS::Connecting ? 0 : POLLOUT | POLLHUP;
        if (s->avail() || s->at_ctl() || s->fin || s->rst || s->rd_shut) r |= POLLIN | POLLRDNORM;
        if (s->fin) r |= POLLRDHUP;
        if (s->rst) r |= POLLERR | POLLHUP | POLLOUT;
        if (s->fin && s->wr_shut) r |= POLLHUP;
        if (!s->other || s->other->avail() + s->other->inflight < g_knobs.sock_buf) r |= POLLOUT | POLLWRNORM;
        return r;
    }

    // ---- generic read / write ------------------------------------------------------------------------------------------
    static WaitQ* wq_of(OpenFile* o)
    {
        if (o->kind == Kind::Pipe) return &o->pipe->wq;
        if (o->kind == Kind::Sock) return &o->sock->wq;
        return &o->wq;
    }
    static i64 file_pread(OpenFile* o, char* d, size_t n, u64 off) { return raw6(SYS_pread64, o->realfd, (long)d, (long)n, (long)off); }
    static i64 file_pwrite(OpenFile* o, const char* d, size_t n, u64 off)
    {
        const i64 r = raw6(SYS_pwrite64, o->realfd, (long)d, (long)n, (long)off);
        if (r > 0 && o->node)
        {
            u64 meta = 0;
            o->node->dirty.push_back({0, off, std::string(d, size_t(r)), meta});
            if (off + u64(r) > o->node->cur_size) o->node->cur_size = off + u64(r);
        }
        return r;
    }
    static u64 file_size(OpenFile* o)
    {
        struct stat st;
        raw6(SYS_fstat, o->realfd, (long)&st);
        return u64(st.st_size);
    }
    // off == ~0: current position
    static i64 do_read(OpenFile* o, char* d, size_t n, u64 off, bool faults)
    {
        switch (o->kind)
        {
            case Kind::Event:
                if (n < 8) return -EINVAL;
                if (o->counter == 0) return kBlock;
                kernel_access_check(d, 8, "writes an eventfd value into");
                if (o->flags & EFD_SEMAPHORE)
                {
                    u64 one = 1;
                    memcpy(d, &one, 8);
                    o->counter--;
                }
                else
                {
                    memcpy(d, &o->counter, 8);
                    o->counter = 0;
                }
                ksync_acquire(o->clk);
                notify(o->wq);
                return 8;
            case Kind::Pipe:
            {
                if (o->wr_end) return -EBADF;
                PipeBuf* p = o->pipe;
                if (n == 0) return 0;
                if (!p->avail()) return p->writers ? kBlock : 0;
                size_t k = std::min(n, p->avail());
                if (faults && k > 1 && fault(F_ShortRead)) k = k - 1 - size_t(decide(Env, k - 1));
                if (!k) k = 1;
                kernel_access_check(d, k, "writes read data into");
                ksync_acquire(p->clk);
                memcpy(d, p->data.data() + p->head, k);
                p->head += k;
                if (p->head == p->data.size())
                {
                    p->data.clear();
                    p->head = 0;
                }
                notify(p->wq);
                return i64(k);
            }
            case Kind::Sock:
            {
                if (n) kernel_access_check(d, n, "may write received data into");
                return sock_recv(o->sock, d, n, faults, false);
            }
            case Kind::File:
            {
                if ((o->flags & O_ACCMODE) == O_WRONLY) return -EBADF;
                if (n == 0) return 0;
                kernel_access_check(d, n, "may write file data into");
                if (faults && faultable(o->path))
                {
                    if (fault(F_Eio)) return -EIO;
                    if (fault(F_Eintr)) return -EINTR;
                    if (fault(F_Eagain)) return -EAGAIN;
                    if (n > 1 && fault(F_ShortRead)) n = n - 1 - size_t(decide(Env, n - 1));
                    if (!n) n = 1;
                }
                const u64 p = off == ~0ull ? o->pos : off;
                if (i64(p) < 0) return -EINVAL;
                const i64 r = file_pread(o, d, n, p);
                if (r > 0 && off == ~0ull) o->pos += u64(r);
                return r;
            }
            default: return -EINVAL;
        }
    }
    static i64 do_write(OpenFile* o, const char* d, size_t n, u64 off, bool faults)
    {
        switch (o->kind)
        {
            case Kind::Event:
            {
                if (n < 8) return -EINVAL;
                u64 v;
                memcpy(&v, d, 8);
                if (v == ~0ull) return -EINVAL;
                if (o->counter > ~0ull - 1 - v) return kBlock;
                o->counter += v;
                ksync_release(o->clk);
                notify(o->wq);
                return 8;
            }
            case Kind::Pipe:
            {
                if (!o->wr_end) return -EBADF;
                PipeBuf* p = o->pipe;
                if (!p->readers) return -EPIPE;
                if (n == 0) return 0;
                if (p->avail() >= kPipeCap) return kBlock;
                size_t k = std::min(n, kPipeCap - p->avail());
                if (faults && k > 1 && fault(F_ShortWrite)) k = k - 1 - size_t(decide(Env, k - 1));
                if (!k) k = 1;
                kernel_access_check(d, k, "reads");
                p->data.append(d, k);
                ksync_release(p->clk);
                notify(p->wq);
                return i64(k);
            }
            case Kind::Sock:
                kernel_access_check(d, n, "reads");
                return sock_send(o->sock, d, n, faults);
            case Kind::File:
            {
                if ((o->flags & O_ACCMODE) == O_RDONLY) return -EBADF;
                if (n == 0) return 0;
                kernel_access_check(d, n, "reads");
                if (faults && faultable(o->path))
                {
                    if (fault(F_Eio)) return -EIO;
                    if (fault(F_Enospc)) return -ENOSPC;
                    if (fault(F_Eintr)) return -EINTR;
                    if (fault(F_Eagain)) return -EAGAIN;
                    if (n > 1 && fault(F_ShortWrite)) n = n - 1 - size_t(decide(Env, n - 1));
                    if (!n) n = 1;
                }
                u64 p = off == ~0ull ? o->pos : off;
                if (o->flags & O_APPEND) p = file_size(o);
                if (i64(p) < 0) return -EINVAL;
                const i64 r = file_pwrite(o, d, n, p);
                if (r > 0 && off == ~0ull) o->pos = p + u64(r);
                return r;
            }
            default: return -EINVAL;
        }
    }
    static short do_poll(OpenFile* o)
    {
        switch (o->kind)
        {
            case Kind::Event: return short((o->counter ? POLLIN : 0) | POLLOUT);
            case Kind::Pipe:
                if (o->wr_end) return short((o->pipe->avail() < kPipeCap ? POLLOUT : 0) | (o->pipe->readers ? 0 : POLLERR));
                return short((o->pipe->avail() ? POLLIN : 0) | (o->pipe->writers ? 0 : POLLHUP));
            case Kind::Sock: return sock_poll(o->sock);
            default: return POLLIN | POLLOUT;
        }
    }

    // ---- files by path -----------------------------------------------------------------------------------------------
    static i64 k_open(const char* path, int flags, mode_t mode, bool faults)
    {
        const std::string p = norm(path);
        if (faults && faultable(p))
        {
            if (fault(F_Emfile)) return -EMFILE;
            if (fault(F_Eio)) return -EIO;
            if ((flags & O_CREAT) && fault(F_Enospc)) return -ENOSPC;
        }
        auto it = g_ns->find(p);
        const bool existed = it != g_ns->end();
        const i64 rfd = raw6(SYS_openat, AT_FDCWD, (long)tr(path), (flags & ~(O_DIRECT | O_SYNC | O_DSYNC)) | O_CLOEXEC, mode);
        if (rfd < 0) return rfd;
        if (rfd < kSimFds) sim_error("real descriptor %lld in the simulated range", (long long)rfd);
        struct stat st;
        raw6(SYS_fstat, rfd, (long)&st);
        OpenFile* o = of_new(Kind::File);
        o->flags = u32(flags);
        o->realfd = int(rfd);
        o->path = p;
        if (S_ISREG(st.st_mode))
        {
            if (!existed)
            {
                FileNode* n = new FileNode();
                n->id = g_next_id++;
                n->tracked = true;
                o->node = n;
                n->cur_size = u64(st.st_size);
                if (st.st_size) n->synced = read_real(path);
                meta_push({0, p, "", n});
            }
            else
            {
                o->node = it->second.node;
                if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY)
                {
                    const u64 m = meta_push({5, p, "", o->node});
                    o->node->dirty.push_back({1, 0, "", m});
                    o->node->cur_size = 0;
                }
            }
        }
        const int fd = fd_alloc(o);
        if (fd < 0)
        {
            raw6(SYS_close, rfd);
            return fd;
        }
        return fd;
    }
    static i64 k_unlink(const char* path, int flags, bool faults)
    {
        const std::string p = norm(path);
        if (faults && faultable(p) && fault(F_Eio)) return -EIO;
        const i64 r = raw6(SYS_unlinkat, AT_FDCWD, (long)tr(path), flags);
        if (r == 0) meta_push({(flags & AT_REMOVEDIR) ? 4 : 1, p, "", nullptr});
        if (r == 0) g_unlinks++;
        return r;
    }
    static i64 k_rename(const char* a, const char* b, bool faults)
    {
        if (faults && faultable(norm(a)) && fault(F_Eio)) return -EIO;
        const i64 r = raw6(SYS_renameat2, AT_FDCWD, (long)tr(a), AT_FDCWD, (long)tr(b), 0);
        if (r == 0) meta_push({2, norm(a), norm(b), nullptr});
        return r;
    }
    static i64 k_mkdir(const char* p, mode_t mode, bool faults)
    {
        if (faults && faultable(norm(p)) && fault(F_Enospc)) return -ENOSPC;
        const i64 r = raw6(SYS_mkdirat, AT_FDCWD, (long)tr(p), mode);
        if (r == 0) meta_push({3, norm(p), "", nullptr});
        return r;
    }
    static i64 k_ftruncate(OpenFile* o, u64 len, bool faults)
    {
        if (o->kind != Kind::File) return -EINVAL;
        if (faults && faultable(o->path) && fault(F_Eio)) return -EIO;
        const i64 r = raw6(SYS_ftruncate, o->realfd, (long)len);
        if (r == 0 && o->node)
        {
            const u64 m = meta_push({5, o->path, "", o->node});
            o->node->dirty.push_back({1, len, "", m});
            o->node->cur_size = len;
        }
        return r;
    }
    static i64 k_fallocate(OpenFile* o, int mode, u64 off, u64 len, bool faults)
    {
        if (o->kind != Kind::File) return -ESPIPE;
        if ((o->flags & O_ACCMODE) == O_RDONLY) return -EBADF;
        if (i64(len) <= 0 || i64(off) < 0) return -EINVAL;
        if (faults && faultable(o->path))
        {
            if (fault(F_Enospc)) return -ENOSPC;
            if (fault(F_Eio)) return -EIO;
        }
        if (mode == FALLOC_FL_KEEP_SIZE) return 0;
        if (mode != 0) return raw6(SYS_fallocate, o->realfd, mode, (long)off, (long)len);
        if (off + len > file_size(o))
        {
            raw6(SYS_ftruncate, o->realfd, (long)(off + len));
            if (o->node)
            {
                const u64 m = meta_push({5, o->path, "", o->node});
                o->node->dirty.push_back({2, off + len, "", m});
                o->node->cur_size = off + len;
            }
        }
        return 0;
    }
    static i64 k_fsync(OpenFile* o, bool faults)
    {
        if (o->kind != Kind::File) return -EINVAL;
        if (faults && faultable(o->path) && fault(F_FsyncFail)) return -EIO;
        if (o->node)
            node_sync(o->node);
        else
            g_meta_committed = g_meta->size();  // a directory: what was created, renamed and removed so far
        return 0;
    }
    static i64 k_pipe(int* fds, int flags)
    {
        if (fault(F_Emfile)) return -EMFILE;
        PipeBuf* p = new PipeBuf();
        p->id = g_next_id++;
        p->readers = p->writers = 1;
        OpenFile* r = of_new(Kind::Pipe);
        OpenFile* w = of_new(Kind::Pipe);
        r->pipe = w->pipe = p;
        w->wr_end = true;
        r->flags = O_RDONLY | u32(flags & O_NONBLOCK);
        w->flags = O_WRONLY | u32(flags & O_NONBLOCK);
        fds[0] = fd_alloc(r);
        if (fds[0] < 0) return -EMFILE;
        fds[1] = fd_alloc(w);
        if (fds[1] < 0)
        {
            k_close(fds[0]);
            return -EMFILE;
        }
        return 0;
    }

    // ---- io_uring ------------------------------------------------------------------------------------------------------
    void swarm_kernel()
    {
        KernelKnobs& k = g_knobs;
        static const u64 mx[] = {20000, 1000, 200000, 2000000};
        k.max_delay = mx[decide(Conf, 4)];
        k.min_delay = 200;
        static const double ip[] = {0.3, 0.0, 1.0, 0.7};
        k.inline_prob = ip[decide(Conf, 4)];
        k.slow_prob = decide(Conf, 3) == 2 ? 0.1 : 0.02;
        static const size_t sb[] = {65536, 4096, 512, 64};
        k.sock_buf = sb[decide(Conf, 4)];
        static const u64 nd[] = {5000, 500, 50000, 1000000};
        k.net_delay = nd[decide(Conf, 4)];
        static const u64 tsl[] = {50000, 1000, 2000000};
        k.timer_slack = tsl[decide(Conf, 3)];
        k.ncpu = int(range(Conf, 1, 4));
    }
    static u64 op_delay()
    {
        const KernelKnobs& k = g_knobs;
        if (k.slow_prob > 0 && chance(Env, k.slow_prob))
        {
            count_fault(F_Delay);
            return k.slow_delay + decide(Env, 1000);
        }
        return k.min_delay + decide_p(Env, 16, 0.4) * (k.max_delay - k.min_delay) / 16;
    }
    static void cq_put(Ring* r, const io_uring_cqe& c)
    {
        const u32 tail = *r->cq_tail;
        const u32 head = __atomic_load_n(r->cq_head, __ATOMIC_ACQUIRE);
        if (!r->overflow.empty() || tail - head >= r->cq_entries)
        {
            r->overflow.push_back(c);
            *r->sq_flags |= IORING_SQ_CQ_OVERFLOW;
            count_fault(F_CqOverflow);
            return;
        }
        io_uring_cqe& dst = r->cqes[tail & (r->cq_entries - 1)];
        dst.user_data = c.user_data;
        dst.res = c.res;
        dst.flags = c.flags;
        __atomic_store_n(r->cq_tail, tail + 1, __ATOMIC_RELEASE);
        r->posted++;
    }
    static void cq_flush_overflow(Ring* r)
    {
        while (!r->overflow.empty())
        {
            const u32 tail = *r->cq_tail;
            const u32 head = __atomic_load_n(r->cq_head, __ATOMIC_ACQUIRE);
            if (tail - head >= r->cq_entries) return;
            io_uring_cqe c = r->overflow.front();
            r->overflow.pop_front();
            io_uring_cqe& dst = r->cqes[tail & (r->cq_entries - 1)];
            dst.user_data = c.user_data;
            dst.res = c.res;
            dst.flags = c.flags;
            __atomic_store_n(r->cq_tail, tail + 1, __ATOMIC_RELEASE);
            r->posted++;
        }
        *r->sq_flags &= ~u32(IORING_SQ_CQ_OVERFLOW);
    }
    static const char* opname(int o)
    {
        switch (o)
        {
            case IORING_OP_NOP: return "nop";
            case IORING_OP_READV: return "readv";
            case IORING_OP_WRITEV: return "writev";
            case IORING_OP_FSYNC: return "fsync";
            case IORING_OP_POLL_ADD: return "poll";
            case IORING_OP_POLL_REMOVE: return "poll_remove";
            case IORING_OP_SENDMSG: return "sendmsg";
            case IORING_OP_RECVMSG: return "recvmsg";
            case IORING_OP_TIMEOUT: return "timeout";
            case IORING_OP_TIMEOUT_REMOVE: return "timeout_remove";
            case IORING_OP_ACCEPT: return "accept";
            case IORING_OP_ASYNC_CANCEL: return "cancel";
            case IORING_OP_CONNECT: return "connect";
            case IORING_OP_FALLOCATE: return "fallocate";
            case IORING_OP_OPENAT: return "openat";
            case IORING_OP_CLOSE: return "close";
            case IORING_OP_READ: return "read";
            case IORING_OP_WRITE: return "write";
            case IORING_OP_SEND: return "send";
            case IORING_OP_RECV: return "recv";
            case IORING_OP_SPLICE: return "splice";
            case IORING_OP_SHUTDOWN: return "shutdown";
            case IORING_OP_RENAMEAT: return "rename";
            case IORING_OP_UNLINKAT: return "unlink";
            case IORING_OP_MKDIRAT: return "mkdir";
            case 55: return "ftruncate";
            default: return "op?";
        }
    }
    static void post_op(void* a);
    static void finish_op(Op* op, i64 res, u64 delay)
    {
        op->done = true;
        op->res = res;
        OpRec& r = (*g_log)[op->rec];
        r.res = res;
        r.t_exec = g_now;
        r.state = 1;
        hash_event(u64(res) * 7 + op->opcode);
        if (tracing()) tracef("io %s fd=%d ud=%llu -> %lld", opname(op->opcode), op->fd, (unsigned long long)op->ud, (long long)res);
        if (delay == 0)
            post_op(op);
        else
            at(g_now + delay, post_op, op);
    }
    static void post_op(void* a)
    {
        Op* op = (Op*)a;
        Ring* r = op->ring;
        if (op->posted || r->dead) return;
        op->posted = true;
        OpRec& rec = (*g_log)[op->rec];
        rec.t_done = g_now;
        rec.state = 2;
        for (size_t i = 0; i < r->inflight.size(); ++i)
            if (r->inflight[i] == op)
            {
                r->inflight.erase(r->inflight.begin() + long(i));
                break;
            }
        io_uring_cqe c{};
        c.user_data = op->ud;
        c.res = int(op->res);
        sync_release_at(r->cq_tail, op->clk);
        cq_put(r, c);
        if (op->of) of_unref(op->of);
        if (op->of2) of_unref(op->of2);
        op->of = op->of2 = nullptr;
        wake_key((u64)r, 1);
        // timeouts that count completions
        for (Op* t: std::vector<Op*>(r->inflight))
            if (t->opcode == IORING_OP_TIMEOUT && !t->done && t->timeout_target && r->posted >= t->timeout_target) finish_op(t, 0, 1);
    }
    struct Fire
    {
        Op* op;
        u64 gen;
    };
    static void exec_fire(void* a)
    {
        Fire* f = (Fire*)a;
        if (f->op->done || f->gen != f->op->fire_gen || f->op->ring->dead) return;
        exec_op(f->op);
    }
    static void start_exec(Op* op, u64 delay)
    {
        op->fire_gen++;
        at(g_now + delay, exec_fire, new Fire{op, op->fire_gen});
    }
    void kernel_wall_jumped()
    {
        if (!g_rings) return;
        for (Ring* r: *g_rings)
            for (Op* o: r->inflight)
                if (o->wall_abs && !o->done)
                {
                    const i64 target = i64(o->ts.tv_sec) * 1000000000ll + o->ts.tv_nsec;
                    const i64 wall = 1760000000ll * 1000000000ll + i64(g_now) + wall_offset();
                    start_exec(o, target > wall ? u64(target - wall) : 1);
                }
    }
    static i64 total_len(const std::vector<iovec>& v)
    {
        i64 n = 0;
        for (auto& i: v) n += i64(i.iov_len);
        return n;
    }
    static i64 attempt(Op* op)
    {
        OpenFile* o = op->of;
        switch (op->opcode)
        {
            case IORING_OP_NOP: return 0;
            case IORING_OP_READ: return do_read(o, (char*)op->addr, op->len, op->off, true);
            case IORING_OP_WRITE: return do_write(o, (const char*)op->addr, op->len, op->off, true);
            case IORING_OP_RECV:
                if (o->kind != Kind::Sock) return -ENOTSOCK;
                kernel_access_check((void*)op->addr, op->len, "may write received data into");
                return sock_recv(o->sock, (char*)op->addr, op->len, true, op->flags & MSG_PEEK);
            case IORING_OP_SEND:
                if (o->kind != Kind::Sock) return -ENOTSOCK;
                kernel_access_check((void*)op->addr, op->len, "reads");
                return sock_send(o->sock, (const char*)op->addr, op->len, true);
            case IORING_OP_READV:
            case IORING_OP_RECVMSG:
            {
                std::string tmp(size_t(total_len(op->iov)), 0);
                for (auto& v: op->iov) kernel_access_check(v.iov_base, v.iov_len, "may write read data into");
                const i64 r = do_read(o, tmp.data(), tmp.size(), op->opcode == IORING_OP_READV ? op->off : ~0ull, true);
                size_t p = 0;
                if (r > 0)
                    for (auto& v: op->iov)
                    {
                        const size_t k = std::min(v.iov_len, size_t(r) - p);
                        memcpy(v.iov_base, tmp.data() + p, k);
                        p += k;
                    }
                return r;
            }
            case IORING_OP_WRITEV:
            case IORING_OP_SENDMSG:
            {
                if (op->opcode == IORING_OP_SENDMSG && o->kind != Kind::Sock) return -ENOTSOCK;
                std::string tmp;
                for (auto& v: op->iov)
                {
                    kernel_access_check(v.iov_base, v.iov_len, "reads");
                    tmp.append((const char*)v.iov_base, v.iov_len);
                }
                return do_write(o, tmp.data(), tmp.size(), op->opcode == IORING_OP_WRITEV ? op->off : ~0ull, true);
            }
            case IORING_OP_FSYNC: return k_fsync(o, true);
            case IORING_OP_FALLOCATE: return k_fallocate(o, int(op->len), op->off, op->addr, true);
            case 55: return k_ftruncate(o, op->off, true);
            case IORING_OP_OPENAT: return k_open(op->path.c_str(), int(op->flags), op->len, true);
            case IORING_OP_UNLINKAT: return k_unlink(op->path.c_str(), int(op->flags), true);
            case IORING_OP_RENAMEAT: return k_rename(op->path.c_str(), op->path2.c_str(), true);
            case IORING_OP_MKDIRAT: return k_mkdir(op->path.c_str(), op->len, true);
            case IORING_OP_CLOSE:
            {
                const i64 r = k_close(op->fd);
                if (r == 0 && fault(F_CloseFail)) return -EIO;
                return r;
            }
            case IORING_OP_POLL_ADD:
            {
                const short r = short(do_poll(o) & (op->flags | POLLERR | POLLHUP));
                return r ? r : kBlock;
            }
            case IORING_OP_ACCEPT:
            {
                if (o->kind != Kind::Sock) return -ENOTSOCK;
                Sock* l = o->sock;
                if (l->st != SS::Listening) return -EINVAL;
                if (l->acceptq.empty()) return kBlock;
                if (fault(F_Emfile)) return -EMFILE;
                Sock* c = l->acceptq.front();
                l->acceptq.pop_front();
                if (fault(F_AcceptFail))
                {
                    sock_close(c);
                    return -ECONNABORTED;
                }
                OpenFile* n = of_new(Kind::Sock);
                n->sock = c;
                n->flags = O_RDWR | (op->flags & SOCK_NONBLOCK ? O_NONBLOCK : 0);
                put_addr(c->peer, (void*)op->addr, (socklen_t*)op->off);
                return fd_alloc(n);
            }
            case IORING_OP_CONNECT:
            {
                if (o->kind != Kind::Sock) return -ENOTSOCK;
                Sock* s = o->sock;
                if (!op->started)
                {
                    if (s->st == SS::Connected) return -EISCONN;
                    if (s->st == SS::Connecting) return -EALREADY;
                    op->started = true;
                    sock_connect(s, addr_of((sockaddr*)&op->sa, op->salen));
                    return kBlock;
                }
                if (s->st == SS::Connected) return 0;
                if (s->st == SS::Failed)
                {
                    s->st = SS::New;
                    return -s->err;
                }
                return kBlock;
            }
            case IORING_OP_SHUTDOWN:
                if (o->kind != Kind::Sock) return -ENOTSOCK;
                if (o->sock->st != SS::Connected) return -ENOTCONN;
                if (op->len != SHUT_RD && !o->sock->wr_shut)
                {
                    o->sock->wr_shut = true;
                    pkt_send(o->sock->other, 1, "", 0);
                }
                if (op->len != SHUT_WR) o->sock->rd_shut = true;
                notify(o->sock->wq);
                return 0;
            case IORING_OP_SPLICE:
            {
                OpenFile* in = op->of2;
                if (!in) return -EBADF;
                if (op->len == 0) return 0;
                if (in->kind != Kind::Pipe && o->kind != Kind::Pipe) return -EINVAL;
                if (in->kind == Kind::Pipe && op->off_in != -1) return -ESPIPE;
                if (o->kind == Kind::Pipe && op->off != ~0ull) return -ESPIPE;
                size_t want = op->len;
                if (want > 1 && fault(F_SpliceShort)) want = want - 1 - size_t(decide(Env, want - 1));
                if (!want) want = 1;
                if (o->kind == Kind::Pipe)
                {
                    PipeBuf* p = o->pipe;
                    if (!o->wr_end) return -EBADF;
                    if (!p->readers) return -EPIPE;
                    const bool nb = (o->flags & O_NONBLOCK) || (op->flags & SPLICE_F_NONBLOCK);
                    if (p->avail() >= kPipeCap) return nb ? -EAGAIN : kBlock;
                    want = std::min(want, kPipeCap - p->avail());
                    std::string tmp(want, 0);
                    const i64 r = do_read(in, tmp.data(), want, op->off_in == -1 ? ~0ull : u64(op->off_in), true);
                    if (r > 0)
                    {
                        p->data.append(tmp.data(), size_t(r));
                        notify(p->wq);
                    }
                    if (r == kBlock)
                    {
                        wq_of(in)->ops.push_back(op);
                        op->waiting = wq_of(in);
                        return kBlock;
                    }
                    return r;
                }
                PipeBuf* p = in->pipe;
                if (in->wr_end) return -EBADF;
                if (!p->avail())
                {
                    if (!p->writers) return 0;
                    if ((in->flags & O_NONBLOCK) || (op->flags & SPLICE_F_NONBLOCK)) return -EAGAIN;
                    p->wq.ops.push_back(op);
                    op->waiting = &p->wq;
                    return kBlock;
                }
                want = std::min(want, p->avail());
                std::string tmp = p->data.substr(p->head, want);
                const i64 r = do_write(o, tmp.data(), want, op->off, true);
                if (r > 0)
                {
                    p->head += size_t(r);
                    if (p->head == p->data.size())
                    {
                        p->data.clear();
                        p->head = 0;
                    }
                    notify(p->wq);
                }
                if (r == kBlock && (o->flags & O_NONBLOCK)) return -EAGAIN;
                return r;
            }
            case IORING_OP_TIMEOUT: return -ETIME;
            case IORING_OP_TIMEOUT_REMOVE:
            case IORING_OP_ASYNC_CANCEL:
            case IORING_OP_POLL_REMOVE:
            {
                for (Op* t: op->ring->inflight)
                {
                    if (t == op || t->ud != op->addr) continue;
                    if (op->opcode == IORING_OP_TIMEOUT_REMOVE && t->opcode != IORING_OP_TIMEOUT) continue;
                    if (op->opcode == IORING_OP_POLL_REMOVE && t->opcode != IORING_OP_POLL_ADD) continue;
                    if (t->done) return op->opcode == IORING_OP_ASYNC_CANCEL ? -EALREADY : -ENOENT;
                    if (t->waiting)
                    {
                        auto& v = t->waiting->ops;
                        v.erase(std::remove(v.begin(), v.end(), t), v.end());
                        t->waiting = nullptr;
                    }
                    else if (t->opcode != IORING_OP_TIMEOUT && op->opcode == IORING_OP_ASYNC_CANCEL && t->of && t->of->kind == Kind::File)
                        return -EALREADY;
                    finish_op(t, -ECANCELED, 1);
                    return 0;
                }
                return -ENOENT;
            }
            default: return -EINVAL;
        }
    }
    static void exec_op(void* a)
    {
        Op* op = (Op*)a;
        if (op->done) return;
        g_kops++;
        g_res->kops++;
        if (op->opcode != IORING_OP_TIMEOUT && op->opcode != IORING_OP_CLOSE && op->ud != ~0ull && fault_rate(F_Cancel) > 0 && fault(F_Cancel))
        {
            finish_op(op, -ECANCELED, 1);
            return;
        }
        Clock* const outer = g_exec_clk;
        g_exec_clk = &op->clk;
        const i64 r = attempt(op);
        g_exec_clk = outer;
        if (r == kBlock)
        {
            if (!op->waiting)
            {
                WaitQ* q = wq_of(op->of);
                q->ops.push_back(op);
                op->waiting = q;
            }
            return;
        }
        const bool inl = op->submitting && g_knobs.inline_prob > 0;
        // completed, but the completion is not seen before others that took effect later
        // (an accept is carried out by the submitter's own thread, which sees its completion before it does anything else)
        const u64 post = inl || op->opcode == IORING_OP_ACCEPT ? 0 : decide_p(Env, 5, 0.7);
        finish_op(op, r, post == 4 ? g_knobs.max_delay : post * 900);
    }

    // returns false when the request could not be prepared (submission of the batch stops after it)
    static bool submit_one(Ring* r, const io_uring_sqe& s)
    {
        Op* op = new Op();
        op->ring = r;
        op->clk.clear();
        if (g_cur) hb_release(op->clk);
        op->ud = s.user_data;
        op->opcode = s.opcode;
        op->fd = s.fd;
        op->addr = s.addr;
        op->len = s.len;
        op->off = s.off;
        op->flags = s.rw_flags;
        op->rec = g_log->size();
        g_log->push_back({g_log->size(), r->index, s.user_data, s.opcode, s.fd, fd_object(s.fd), s.addr, s.len, s.off, 0, g_now, 0, 0, 0});
        r->inflight.push_back(op);
        if (tracing()) tracef("submit %s fd=%d(%s) len=%u off=%lld ud=%lld", opname(s.opcode), s.fd, fd_desc(s.fd), s.len, (long long)s.off, (long long)s.user_data);
        bool needs_fd = true;
        i64 err = 0;
        u64 delay = 0;
        bool timed = false;
        switch (s.opcode)
        {
            case IORING_OP_NOP: needs_fd = false; break;
            case IORING_OP_READV:
            case IORING_OP_WRITEV:
            {
                const iovec* v = (const iovec*)s.addr;
                kernel_access_check(v, s.len * sizeof(iovec), "reads an iovec from");
                if (s.len > 1024)
                    err = -EINVAL;
                else
                    op->iov.assign(v, v + s.len);
                break;
            }
            case IORING_OP_SENDMSG:
            case IORING_OP_RECVMSG:
            {
                const msghdr* m = (const msghdr*)s.addr;
                kernel_access_check(m, sizeof *m, "reads a msghdr from");
                if (m->msg_iovlen) kernel_access_check(m->msg_iov, m->msg_iovlen * sizeof(iovec), "reads an iovec from");
                op->iov.assign(m->msg_iov, m->msg_iov + m->msg_iovlen);
                op->off = ~0ull;
                break;
            }
            case IORING_OP_OPENAT:
            case IORING_OP_UNLINKAT:
            case IORING_OP_MKDIRAT:
                needs_fd = false;
                if (s.fd != AT_FDCWD && !((const char*)s.addr)[0]) err = -EBADF;
                kernel_access_check((const char*)s.addr, 1, "reads a path from");
                kernel_access_check((const char*)s.addr, strlen((const char*)s.addr) + 1, "reads a path from");
                op->path = (const char*)s.addr;
                if (s.opcode == IORING_OP_UNLINKAT && (s.unlink_flags & ~u32(AT_REMOVEDIR))) err = -EINVAL;
                break;
            case IORING_OP_RENAMEAT:
                needs_fd = false;
                op->path = (const char*)s.addr;
                op->path2 = (const char*)s.addr2;
                break;
            case IORING_OP_CLOSE: needs_fd = false; break;
            case IORING_OP_CONNECT:
                op->salen = socklen_t(s.addr2);
                if (op->salen > sizeof op->sa)
                    err = -EINVAL;
                else
                {
                    kernel_access_check((void*)s.addr, op->salen, "reads an address from");
                    memcpy(&op->sa, (void*)s.addr, op->salen);
                    op->off = 0;
                }
                break;
            case IORING_OP_TIMEOUT:
            {
                needs_fd = false;
                const auto* t = (const __kernel_timespec*)s.addr;
                kernel_access_check(t, sizeof *t, "reads a timespec from");
                op->ts = *t;
                if (s.len != 1 || t->tv_sec < 0 || t->tv_nsec < 0)
                    err = -EINVAL;
                else
                {
                    timed = true;
                    u64 d = u64(t->tv_sec) > 1000000000ull ? 1000000000ull * 1000000000ull : u64(t->tv_sec) * 1000000000ull + u64(t->tv_nsec);
                    if (s.timeout_flags & IORING_TIMEOUT_ABS)
                    {
                        const u64 ref = s.timeout_flags & IORING_TIMEOUT_REALTIME ? u64(1760000000ll * 1000000000ll + i64(g_now) + wall_offset()) : g_now - mono_base();
                        d = d > ref ? d - ref : 0;
                    }
                    delay = d + 1 + decide_p(Env, 8, 0.5) * g_knobs.timer_slack / 8;
                    if (fault(F_TimerLate)) delay += 1000000 + decide(Env, 20000000);
                    if ((s.timeout_flags & IORING_TIMEOUT_ABS) && (s.timeout_flags & IORING_TIMEOUT_REALTIME)) op->wall_abs = true;
                    if (s.off) op->timeout_target = r->posted + s.off;
                }
                break;
            }
            case IORING_OP_TIMEOUT_REMOVE:
            case IORING_OP_ASYNC_CANCEL:
            case IORING_OP_POLL_REMOVE: needs_fd = false; break;
            case IORING_OP_SPLICE:
                op->fd_in = s.splice_fd_in;
                op->off_in = i64(s.splice_off_in);
                op->of2 = fd_get(s.splice_fd_in);
                op->flags = s.splice_flags;
                if (!op->of2) err = -EBADF;
                else op->of2->refs++;
                break;
            case IORING_OP_POLL_ADD: op->flags = s.poll32_events; break;
            case IORING_OP_ACCEPT: op->flags = s.accept_flags; break;
            case IORING_OP_FALLOCATE: break;
            case IORING_OP_READ:
            case IORING_OP_WRITE:
            case IORING_OP_FSYNC:
            case IORING_OP_RECV:
            case IORING_OP_SEND:
            case IORING_OP_SHUTDOWN: break;
            case 55: break;
            default: err = -EINVAL; break;
        }
        if (err == -EINVAL)
        {
            finish_op(op, err, 0);
            return false;
        }
        if (needs_fd)
        {
            op->of = fd_get(s.fd);
            if (!op->of || s.fd < 3)
            {
                op->of = nullptr;
                err = -EBADF;
                if (g_bad_use) violation("fd:bad-use", "%s on descriptor %d, which is not open", opname(s.opcode), s.fd);
            }
            else
                op->of->refs++;
        }
        if (err)
        {
            finish_op(op, err, 0);
            return true;
        }
        if (timed)
        {
            start_exec(op, delay);
            return true;
        }
        if (s.opcode == IORING_OP_TIMEOUT_REMOVE || s.opcode == IORING_OP_ASYNC_CANCEL || s.opcode == IORING_OP_POLL_REMOVE || (g_knobs.inline_prob > 0 && chance(Env, g_knobs.inline_prob)))
        {
            op->submitting = true;
            exec_op(op);
            op->submitting = false;
        }
        else
            start_exec(op, op_delay());
        return true;
    }
    static Ring* ring_of(io_uring* u)
    {
        for (Ring* r: *g_rings)
            if (r->user == u && !r->dead) return r;
        return nullptr;
    }
    static void ring_kill(Ring* r)
    {
        if (r->dead) return;
        r->dead = true;
        for (Op* o: std::vector<Op*>(r->inflight))
        {
            o->done = true;
            if (o->waiting)
            {
                auto& v = o->waiting->ops;
                v.erase(std::remove(v.begin(), v.end(), o), v.end());
                o->waiting = nullptr;
            }
            if (o->of) of_unref(o->of);
            if (o->of2) of_unref(o->of2);
            o->of = o->of2 = nullptr;
        }
        r->inflight.clear();
    }
    static int ring_enter(Ring* r, u32 to_submit, u32 wait_nr, bool getevents, u64 deadline)
    {
        if (to_submit)
        {
            if ((r->setup_flags & IORING_SETUP_SINGLE_ISSUER) && r->submitter != g_cur->id)
            {
                probe("io_uring_enter by a second thread");
                return -EEXIST;
            }
            if (fault_rate(F_SubmitFatal) > 0 && fault(F_SubmitFatal)) return -ENOMEM;
            if (fault(F_SubmitEintr)) return decide(Env, 2) ? -EAGAIN : -EBUSY;
        }
        u32 n = 0;
        u32 limit = to_submit;
        if (to_submit > 1 && fault(F_PartialSubmit)) limit = to_submit - 1 - u32(decide(Env, to_submit - 1));
        while (n < limit)
        {
            const u32 head = *r->sq_head;
            const io_uring_sqe s = r->sqes[r->sq_array[head & (r->sq_entries - 1)]];
            __atomic_store_n(r->sq_head, head + 1, __ATOMIC_RELEASE);
            ++n;
            if (!submit_one(r, s)) break;
        }
        if (n != to_submit) return int(n);
        if (getevents)
        {
            cq_flush_overflow(r);
            while (*r->cq_tail - __atomic_load_n(r->cq_head, __ATOMIC_ACQUIRE) < wait_nr)
            {
                if (fault(F_Eintr)) return n ? int(n) : -EINTR;
                if (!block("io_uring", (u64)r, deadline)) return n ? int(n) : -ETIME;
                cq_flush_overflow(r);
                if (r->dead) return -EBADF;
            }
        }
        return int(n);
    }
    static u32 flush_sq(io_uring* u)
    {
        auto& sq = u->sq;
        const u32 tail = sq.sqe_tail;
        if (sq.sqe_head != tail)
        {
            sq.sqe_head = tail;
            __atomic_store_n(sq.ktail, tail, __ATOMIC_RELEASE);
        }
        return tail - *sq.khead;
    }
    static int uring_submit(io_uring* u, u32 wait_nr, bool getevents, u64 deadline)
    {
        if (!on()) return -ENOSYS;
        if (!g_in) sched_point(50);
        In in;
        Ring* r = ring_of(u);
        if (!r) return -EBADF;
        const u32 n = flush_sq(u);
        const bool need = getevents || wait_nr || (*r->sq_flags & IORING_SQ_CQ_OVERFLOW);
        if (!n && !need) return 0;
        const int rc = ring_enter(r, n, wait_nr, need, deadline);
        return rc;
    }

    void kernel_reset()
    {
        In in;
        for (Ring* r: *g_rings)
        {
            if (r->dead) continue;
            // operations in flight when the process dies: some take effect
            for (Op* o: std::vector<Op*>(r->inflight))
            {
                if (o->done) continue;
                if ((o->opcode == IORING_OP_WRITE || o->opcode == IORING_OP_WRITEV || o->opcode == IORING_OP_UNLINKAT || o->opcode == IORING_OP_FALLOCATE || o->opcode == 55 || o->opcode == IORING_OP_FSYNC) && chance(Env, 0.4))
                {
                    const bool f = faults_on();
                    faults_enabled(false);
                    if (o->opcode == IORING_OP_WRITE && o->len > 1 && chance(Env, 0.4)) o->len -= 1 + u32(decide(Env, o->len - 1));
                    attempt(o);
                    faults_enabled(f);
                }
            }
            ring_kill(r);
        }
        for (int i = 3; i < kSimFds; ++i)
            if (g_fd[i])
            {
                OpenFile* o = g_fd[i];
                g_fd[i] = nullptr;
                of_unref(o);
            }
        g_rings->clear();
        g_listeners->clear();
    }
    void kernel_start_run()
    {
        g_log = new std::vector<OpRec>();
        g_rings = new std::vector<Ring*>();
        g_listeners = new std::vector<Sock*>();
        g_peers = new std::vector<Sock*>();
        g_ns = new std::map<std::string, Ent>();
        g_ns_base = new std::map<std::string, Ent>();
        g_meta = new std::vector<MetaOp>();
        char buf[PATH_MAX];
        if (raw6(SYS_getcwd, (long)buf, sizeof buf) > 0) g_real_root = buf, g_root = "/sim";
    }

    // ---- peers ---------------------------------------------------------------------------------------------------------
    static int peer_add(Sock* s)
    {
        g_peers->push_back(s);
        return int(g_peers->size()) - 1;
    }
    int peer_connect(u16 port)
    {
        In in;
        Sock* s = sock_new();
        s->local.ip[0] = 10;
        s->local.ip[3] = u8(2 + g_peers->size() % 200);
        s->local.port = u16(50000 + g_peers->size());
        Addr a;
        a.port = port;
        sock_connect(s, a);
        while (s->st == SS::Connecting) block("peer connect", (u64)&s->wq, 0);
        if (s->st != SS::Connected) return -s->err;
        return peer_add(s);
    }
    int peer_listen(u16 port)
    {
        In in;
        Sock* s = sock_new();
        Addr a;
        a.port = port;
        s->reuse = true;
        if (sock_bind(s, a) < 0) return -EADDRINUSE;
        sock_listen(s, 128);
        return peer_add(s);
    }
    int peer_accept(int h)
    {
        In in;
        Sock* l = (*g_peers)[size_t(h)];
        while (l->acceptq.empty())
        {
            if (l->closed) return -EBADF;
            block("peer accept", (u64)&l->wq, 0);
        }
        Sock* c = l->acceptq.front();
        l->acceptq.pop_front();
        return peer_add(c);
    }
    // Kernel TLS, as set up by a TLS library that negotiated keys.
    void sock_ktls(int fd, bool tx, bool rx)
    {
        In in;
        OpenFile* o = fd_get(fd);
        if (!o || o->kind != Kind::Sock) return;
        o->sock->ktx = tx;
        o->sock->krx = rx;
    }
    // A record which is not data. 0 or -errno.
    int sock_send_control(int fd, int code)
    {
        In in;
        OpenFile* o = fd_get(fd);
        if (!o || o->kind != Kind::Sock) return -EBADF;
        Sock* s = o->sock;
        if (s->st != SS::Connected || s->wr_shut) return -EPIPE;
        if (s->rst)
        {
            s->rst_reported = true;
            return -ECONNRESET;
        }
        if (s->other->avail() + s->other->inflight >= g_knobs.sock_buf) return -EAGAIN;
        const char c = char(code);
        pkt_send(s->other, 3, &c, 1);
        return 0;
    }
    // Takes such a record from the front of the stream: its code, 0 at the end of the stream, -EBADMSG if data comes first.
    int sock_recv_control(int fd)
    {
        In in;
        OpenFile* o = fd_get(fd);
        if (!o || o->kind != Kind::Sock) return -EBADF;
        Sock* s = o->sock;
        if (s->rst) return -ECONNRESET;
        if (s->st != SS::Connected) return -ENOTCONN;
        if (s->at_ctl())
        {
            const int c = s->ctl.front().second;
            s->ctl.pop_front();
            return c;
        }
        if (s->avail()) return -EBADMSG;
        return s->fin || s->rd_shut ? 0 : -EAGAIN;
    }
    long peer_send(int h, const void* p, size_t n)
    {
        In in;
        Sock* s = (*g_peers)[size_t(h)];
        size_t done = 0;
        while (done < n)
        {
            const i64 r = sock_send(s, (const char*)p + done, n - done, false);
            if (r == kBlock)
            {
                block("peer send", (u64)&s->wq, 0);
                continue;
            }
            if (r < 0) return r;
            done += size_t(r);
            if (fault(F_PeerSlow)) block("peer slow", 0, g_now + 10000 + decide(Env, 3000000));
        }
        return long(done);
    }
    long peer_recv(int h, void* p, size_t n, u64 timeout)
    {
        In in;
        Sock* s = (*g_peers)[size_t(h)];
        const u64 deadline = timeout ? g_now + timeout : 0;
        for (;;)
        {
            const i64 r = sock_recv(s, (char*)p, n, false, false);
            if (r != kBlock) return r;
            if (s->closed) return -EBADF;
            if (!block("peer recv", (u64)&s->wq, deadline)) return -EAGAIN;
        }
    }
    void peer_close(int h)
    {
        In in;
        sock_close((*g_peers)[size_t(h)]);
    }
    void peer_shutdown_write(int h)
    {
        In in;
        Sock* s = (*g_peers)[size_t(h)];
        if (s->st == SS::Connected && !s->wr_shut && !s->closed)
        {
            s->wr_shut = true;
            pkt_send(s->other, 1, "", 0);
        }
    }
    void peer_reset(int h)
    {
        In in;
        Sock* s = (*g_peers)[size_t(h)];
        if (s->closed) return;
        s->closed = true;
        count_fault(F_ConnReset);
        if (s->other) pkt_send(s->other, 2, "", 0);
        s->rst = true;
        notify(s->wq);
    }
    u16 peer_local_port(int h) { return (*g_peers)[size_t(h)]->local.port; }

    // blocking system call loop
    template<typename F>
    static i64 blocking(OpenFile* o, bool nonblock, const char* what, F f)
    {
        for (;;)
        {
            const i64 r = f();
            if (r != kBlock) return r;
            if (nonblock || (o->flags & O_NONBLOCK)) return -EAGAIN;
            block(what, (u64)wq_of(o), 0);
        }
    }

    // ---- fake FILEs for files of the simulated disk (libstdc++ file streams)
    struct FakeFile
    {
        u64 magic;
        int fd;
    };
    constexpr u64 kFakeMagic = 0xfa4ef11efa4ef11eull;
    static std::set<void*>* g_fakes;
    static FakeFile* fake(FILE* f) { return on() && g_fakes && g_fakes->count(f) ? (FakeFile*)f : nullptr; }
    struct FakeDir
    {
        u64 magic;
        int fd;
        std::vector<dirent> ents;
        size_t pos = 0;
    };
    constexpr u64 kDirMagic = 0xd14d14d14d14d14dull;
}  // namespace sim

using namespace sim;
#define SYSENTRY(k)            \
    if (!g_in) sched_point(k); \
    In in_

// ---- liburing entry points ------------------------------------------------------------------------------------------
static u32 pow2(u32 n)
{
    u32 p = 1;
    while (p < n) p <<= 1;
    return p;
}
EXP int io_uring_queue_init_params(unsigned entries, io_uring* u, io_uring_params* p)
{
    if (!on()) return -ENOSYS;
    SYSENTRY(51);
    if (fault(F_InitFail)) return decide(Env, 2) ? -ENOMEM : -EMFILE;
    if (!entries) return -EINVAL;
    if (entries > 32768)
    {
        if (!(p->flags & IORING_SETUP_CLAMP)) return -EINVAL;
        entries = 32768;
    }
    memset(u, 0, sizeof *u);
    Ring* r = new Ring();
    r->id = g_next_id++;
    r->index = int(g_rings->size());
    r->user = u;
    r->sq_entries = pow2(entries);
    r->cq_entries = r->sq_entries * 2;
    if (p->flags & IORING_SETUP_CQSIZE) r->cq_entries = pow2(p->cq_entries);
    if (g_knobs.max_sq && r->sq_entries > g_knobs.max_sq) r->sq_entries = pow2(g_knobs.max_sq);
    if (g_knobs.max_cq && r->cq_entries > g_knobs.max_cq) r->cq_entries = pow2(g_knobs.max_cq);
    r->setup_flags = p->flags;
    r->submitter = g_cur->id;
    u32* m = (u32*)calloc(16, 64);
    r->sq_head = m;
    r->sq_tail = m + 16;
    r->sq_flags = m + 32;
    r->sq_dropped = m + 48;
    r->cq_head = m + 64;
    r->cq_tail = m + 80;
    r->cq_flags = m + 96;
    r->cq_overflow = m + 112;
    r->sq_mask = m + 128;
    r->cq_mask = m + 129;
    r->sq_ents = m + 130;
    r->cq_ents = m + 131;
    r->sq_array = (u32*)calloc(r->sq_entries, 4);
    for (u32 i = 0; i < r->sq_entries; ++i) r->sq_array[i] = i;
    r->sqes = (io_uring_sqe*)calloc(r->sq_entries, sizeof(io_uring_sqe));
    r->cqes = (io_uring_cqe*)calloc(r->cq_entries, sizeof(io_uring_cqe));
    *r->sq_mask = r->sq_entries - 1;
    *r->cq_mask = r->cq_entries - 1;
    *r->sq_ents = r->sq_entries;
    *r->cq_ents = r->cq_entries;
    OpenFile* o = of_new(Kind::Ring);
    o->ring = r;
    const int fd = fd_alloc(o);
    if (fd < 0) return fd;
    g_rings->push_back(r);
    u->sq = {};
    u->sq.khead = r->sq_head;
    u->sq.ktail = r->sq_tail;
    u->sq.kring_mask = r->sq_mask;
    u->sq.kring_entries = r->sq_ents;
    u->sq.kflags = r->sq_flags;
    u->sq.kdropped = r->sq_dropped;
    u->sq.array = r->sq_array;
    u->sq.sqes = r->sqes;
    u->sq.ring_mask = r->sq_entries - 1;
    u->sq.ring_entries = r->sq_entries;
    u->cq = {};
    u->cq.khead = r->cq_head;
    u->cq.ktail = r->cq_tail;
    u->cq.kring_mask = r->cq_mask;
    u->cq.kring_entries = r->cq_ents;
    u->cq.kflags = r->cq_flags;
    u->cq.koverflow = r->cq_overflow;
    u->cq.cqes = r->cqes;
    u->cq.ring_mask = r->cq_entries - 1;
    u->cq.ring_entries = r->cq_entries;
    u->flags = p->flags;
    u->ring_fd = u->enter_ring_fd = fd;
    u->features = p->features = IORING_FEAT_SINGLE_MMAP | IORING_FEAT_NODROP | IORING_FEAT_SUBMIT_STABLE | IORING_FEAT_RW_CUR_POS | IORING_FEAT_FAST_POLL | IORING_FEAT_EXT_ARG;
    p->sq_entries = r->sq_entries;
    p->cq_entries = r->cq_entries;
    return 0;
}
EXP int io_uring_queue_init(unsigned entries, io_uring* u, unsigned flags)
{
    io_uring_params p{};
    p.flags = flags;
    return io_uring_queue_init_params(entries, u, &p);
}
EXP void io_uring_queue_exit(io_uring* u)
{
    if (!on()) return;
    SYSENTRY(52);
    // like the real one: closes ring_fd, whatever it is
    k_close(u->ring_fd);
}
EXP int io_uring_submit(io_uring* u) { return uring_submit(u, 0, false, 0); }
EXP int io_uring_submit_and_wait(io_uring* u, unsigned n) { return uring_submit(u, n, false, 0); }
EXP int io_uring_submit_and_get_events(io_uring* u) { return uring_submit(u, 0, true, 0); }
EXP int io_uring_get_events(io_uring* u)
{
    SYSENTRY(53);
    Ring* r = ring_of(u);
    if (!r) return -EBADF;
    cq_flush_overflow(r);
    return 0;
}
static io_uring_cqe* peek_cqe(Ring* r, u32* avail)
{
    const u32 head = *r->cq_head, tail = *r->cq_tail;
    *avail = tail - head;
    return tail == head ? nullptr : &r->cqes[head & (r->cq_entries - 1)];
}
EXP int __io_uring_get_cqe(io_uring* u, io_uring_cqe** out, unsigned submit, unsigned wait_nr, sigset_t*)
{
    if (submit || wait_nr)
    {
        const int rc = uring_submit(u, wait_nr, true, 0);
        if (rc < 0) return rc;
    }
    In in;
    Ring* r = ring_of(u);
    if (!r) return -EBADF;
    u32 av;
    *out = peek_cqe(r, &av);
    return *out ? 0 : -EAGAIN;
}
EXP int io_uring_wait_cqes(io_uring* u, io_uring_cqe** out, unsigned wait_nr, __kernel_timespec* ts, sigset_t*)
{
    const u64 dl = ts ? g_now + u64(ts->tv_sec) * 1000000000ull + u64(ts->tv_nsec) + 1 : 0;
    const int rc = uring_submit(u, wait_nr, true, dl);
    if (rc < 0) return rc;
    In in;
    u32 av;
    *out = peek_cqe(ring_of(u), &av);
    return *out ? 0 : -ETIME;
}
EXP int io_uring_submit_and_wait_timeout(io_uring* u, io_uring_cqe** out, unsigned wait_nr, __kernel_timespec* ts, sigset_t*)
{
    const u64 dl = ts ? g_now + u64(ts->tv_sec) * 1000000000ull + u64(ts->tv_nsec) + 1 : 0;
    const int rc = uring_submit(u, wait_nr, true, dl);
    In in;
    u32 av;
    *out = peek_cqe(ring_of(u), &av);
    return rc;
}
EXP int io_uring_wait_cqe_timeout(io_uring* u, io_uring_cqe** out, __kernel_timespec* ts) { return io_uring_wait_cqes(u, out, 1, ts, nullptr); }
EXP unsigned io_uring_peek_batch_cqe(io_uring* u, io_uring_cqe** cqes, unsigned count)
{
    SYSENTRY(54);
    Ring* r = ring_of(u);
    cq_flush_overflow(r);
    u32 av;
    peek_cqe(r, &av);
    u32 n = std::min(av, u32(count));
    for (u32 i = 0; i < n; ++i) cqes[i] = &r->cqes[(*r->cq_head + i) & (r->cq_entries - 1)];
    return n;
}
EXP int io_uring_register_iowq_aff(io_uring*, size_t, const cpu_set_t*)
{
    if (on() && !g_in && fault(F_SyscallFail)) return -EINVAL;
    return 0;
}
EXP int io_uring_unregister_iowq_aff(io_uring*) { return 0; }
EXP int io_uring_register_iowq_max_workers(io_uring*, unsigned*) { return 0; }
EXP int io_uring_register_ring_fd(io_uring*) { return 1; }
EXP int io_uring_unregister_ring_fd(io_uring*) { return 1; }
EXP int io_uring_register_buffers(io_uring*, const iovec*, unsigned) { return -EOPNOTSUPP; }
EXP int io_uring_register_files(io_uring*, const int*, unsigned) { return -EOPNOTSUPP; }

// ---- descriptors: system calls -----------------------------------------------------------------------------------------
EXP int eventfd(unsigned v, int flags) noexcept
{
    if (!on()) return (int)ret_errno(raw6(SYS_eventfd2, v, flags));
    SYSENTRY(55);
    if (fault(F_Emfile))
    {
        errno = EMFILE;
        return -1;
    }
    OpenFile* o = of_new(Kind::Event);
    o->counter = v;
    o->flags = (flags & EFD_NONBLOCK ? O_NONBLOCK : 0) | O_RDWR | (flags & EFD_SEMAPHORE);
    return (int)ret_errno(fd_alloc(o));
}
EXP int close(int fd)
{
    if (!on() || fd >= kSimFds) return (int)ret_errno(raw6(SYS_close, fd));
    SYSENTRY(56);
    return (int)ret_errno(k_close(fd));
}
EXP ssize_t read(int fd, void* d, size_t n)
{
    if (!is_sim_fd(fd)) return ret_errno(raw6(SYS_read, fd, (long)d, (long)n));
    SYSENTRY(57);
    OpenFile* o = fd_get(fd);
    if (!o) return ret_errno(-EBADF);
    if (o->kind == Kind::Event && fault(F_Eintr)) return ret_errno(-EINTR);
    return ret_errno(blocking(o, false, "read", [&] { return do_read(o, (char*)d, n, ~0ull, true); }));
}
EXP ssize_t write(int fd, const void* d, size_t n)
{
    if (!is_sim_fd(fd)) return ret_errno(raw6(SYS_write, fd, (long)d, (long)n));
    SYSENTRY(58);
    OpenFile* o = fd_get(fd);
    if (!o) return ret_errno(-EBADF);
    return ret_errno(blocking(o, false, "write", [&] { return do_write(o, (const char*)d, n, ~0ull, true); }));
}
EXP ssize_t readv(int fd, const iovec* v, int cnt)
{
    if (!is_sim_fd(fd)) return ret_errno(raw6(SYS_readv, fd, (long)v, cnt));
    ssize_t total = 0;
    for (int i = 0; i < cnt; ++i)
    {
        const ssize_t r = read(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0) return total ? total : r;
        total += r;
        if (size_t(r) < v[i].iov_len) break;
    }
    return total;
}
EXP ssize_t writev(int fd, const iovec* v, int cnt)
{
    if (!is_sim_fd(fd)) return ret_errno(raw6(SYS_writev, fd, (long)v, cnt));
    ssize_t total = 0;
    for (int i = 0; i < cnt; ++i)
    {
        if (!v[i].iov_len) continue;
        const ssize_t r = write(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0) return total ? total : r;
        total += r;
        if (size_t(r) < v[i].iov_len) break;
    }
    return total;
}
EXP ssize_t pread64(int fd, void* d, size_t n, off64_t off)
{
    if (!is_sim_fd(fd)) return ret_errno(raw6(SYS_pread64, fd, (long)d, (long)n, off));
    SYSENTRY(59);
    OpenFile* o = fd_get(fd);
    if (!o) return ret_errno(-EBADF);
    if (o->kind != Kind::File) return ret_errno(-ESPIPE);
    return ret_errno(do_read(o, (char*)d, n, u64(off), true));
}
EXP ssize_t pread(int fd, void* d, size_t n, off_t off) { return pread64(fd, d, n, off); }
EXP ssize_t pwrite64(int fd, const void* d, size_t n, off64_t off)
{
    if (!is_sim_fd(fd)) return ret_errno(raw6(SYS_pwrite64, fd, (long)d, (long)n, off));
    SYSENTRY(60);
    OpenFile* o = fd_get(fd);
    if (!o) return ret_errno(-EBADF);
    if (o->kind != Kind::File) return ret_errno(-ESPIPE);
    return ret_errno(do_write(o, (const char*)d, n, u64(off), true));
}
EXP ssize_t pwrite(int fd, const void* d, size_t n, off_t off) { return pwrite64(fd, d, n, off); }
EXP off64_t lseek64(int fd, off64_t off, int wh) noexcept
{
    if (!is_sim_fd(fd)) return ret_errno(raw6(SYS_lseek, fd, off, wh));
    In in_;
    OpenFile* o = fd_get(fd);
    if (!o) return ret_errno(-EBADF);
    if (o->kind != Kind::File) return ret_errno(-ESPIPE);
    i64 base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? i64(o->pos) : i64(file_size(o));
    if (base + off < 0) return ret_errno(-EINVAL);
    o->pos = u64(base + off);
    return off64_t(o->pos);
}
EXP off_t lseek(int fd, off_t off, int wh) noexcept { return lseek64(fd, off, wh); }
EXP int fsync(int fd)
{
    if (!is_sim_fd(fd)) return (int)ret_errno(raw6(SYS_fsync, fd));
    SYSENTRY(61);
    OpenFile* o = fd_get(fd);
    if (!o) return (int)ret_errno(-EBADF);
    return (int)ret_errno(k_fsync(o, true));
}
EXP int fdatasync(int fd) { return fsync(fd); }
EXP int ftruncate64(int fd, off64_t n) noexcept
{
    if (!is_sim_fd(fd)) return (int)ret_errno(raw6(SYS_ftruncate, fd, n));
    SYSENTRY(62);
    OpenFile* o = fd_get(fd);
    if (!o) return (int)ret_errno(-EBADF);
    return (int)ret_errno(k_ftruncate(o, u64(n), true));
}
EXP int ftruncate(int fd, off_t n) noexcept { return ftruncate64(fd, n); }
EXP int posix_fallocate(int fd, off_t off, off_t n)
{
    if (!is_sim_fd(fd)) return int(-raw6(SYS_fallocate, fd, 0, off, n));
    SYSENTRY(63);
    OpenFile* o = fd_get(fd);
    if (!o) return EBADF;
    return int(-k_fallocate(o, 0, u64(off), u64(n), true));
}
EXP int fallocate64(int fd, int mode, off64_t off, off64_t n)
{
    if (!is_sim_fd(fd)) return (int)ret_errno(raw6(SYS_fallocate, fd, mode, off, n));
    SYSENTRY(63);
    OpenFile* o = fd_get(fd);
    if (!o) return (int)ret_errno(-EBADF);
    return (int)ret_errno(k_fallocate(o, mode, u64(off), u64(n), true));
}
EXP int fallocate(int fd, int mode, off_t off, off_t n) { return fallocate64(fd, mode, off, n); }
EXP int posix_fallocate64(int fd, off64_t off, off64_t n) { return posix_fallocate(fd, off, n); }
EXP int sync_file_range(int fd, off64_t off, off64_t n, unsigned flags)
{
    if (!is_sim_fd(fd)) return (int)ret_errno(raw6(SYS_sync_file_range, fd, off, n, flags));
    SYSENTRY(61);
    return fd_get(fd) ? 0 : (int)ret_errno(-EBADF);  // writes data out, promises nothing about a crash
}
EXP int syncfs(int fd) noexcept
{
    if (!is_sim_fd(fd)) return (int)ret_errno(raw6(SYS_syncfs, fd));
    SYSENTRY(61);
    if (!fd_get(fd)) return (int)ret_errno(-EBADF);
    disk_sync_all();
    return 0;
}
EXP ssize_t preadv64(int fd, const iovec* v, int cnt, off64_t off)
{
    if (!is_sim_fd(fd)) return ret_errno(raw6(SYS_preadv, fd, (long)v, cnt, off));
    ssize_t total = 0;
    for (int i = 0; i < cnt; ++i)
    {
        if (!v[i].iov_len) continue;
        const ssize_t r = pread64(fd, v[i].iov_base, v[i].iov_len, off + total);
        if (r < 0) return total ? total : r;
        total += r;
        if (size_t(r) < v[i].iov_len) break;
    }
    return total;
}
EXP ssize_t preadv(int fd, const iovec* v, int cnt, off_t off) { return preadv64(fd, v, cnt, off); }
EXP ssize_t pwritev64(int fd, const iovec* v, int cnt, off64_t off)
{
    if (!is_sim_fd(fd)) return ret_errno(raw6(SYS_pwritev, fd, (long)v, cnt, off));
    ssize_t total = 0;
    for (int i = 0; i < cnt; ++i)
    {
        if (!v[i].iov_len) continue;
        const ssize_t r = pwrite64(fd, v[i].iov_base, v[i].iov_len, off + total);
        if (r < 0) return total ? total : r;
        total += r;
        if (size_t(r) < v[i].iov_len) break;
    }
    return total;
}
EXP ssize_t pwritev(int fd, const iovec* v, int cnt, off_t off) { return pwritev64(fd, v, cnt, off); }
EXP int dup(int fd) noexcept
{
    if (!is_sim_fd(fd)) return (int)ret_errno(raw6(SYS_dup, fd));
    SYSENTRY(55);
    OpenFile* o = fd_get(fd);
    if (!o) return (int)ret_errno(-EBADF);
    if (fault(F_Emfile)) return (int)ret_errno(-EMFILE);
    return (int)ret_errno(fd_alloc(o));
}
EXP int dup3(int fd, int to, int flags) noexcept
{
    if (!is_sim_fd(fd) && !is_sim_fd(to)) return (int)ret_errno(raw6(SYS_dup3, fd, to, flags));
    SYSENTRY(55);
    OpenFile* o = fd_get(fd);
    if (!o || to < 3 || to >= kSimFds) return (int)ret_errno(-EBADF);
    if (fd == to) return (int)ret_errno(-EINVAL);
    if (g_fd[to]) k_close(to);
    g_fd[to] = o;
    o->refs++;
    o->fdrefs++;
    return to;
}
EXP int dup2(int fd, int to) noexcept
{
    if (fd == to) return fcntl(fd, F_GETFD) < 0 ? -1 : to;
    return dup3(fd, to, 0);
}
static ssize_t move_bytes(int in, off64_t* ioff, int out, off64_t* ooff, size_t n)
{
    char b[4096];
    n = std::min(n, sizeof b);
    const ssize_t r = ioff ? pread64(in, b, n, *ioff) : read(in, b, n);
    if (r <= 0) return r;
    const ssize_t w = ooff ? pwrite64(out, b, size_t(r), *ooff) : write(out, b, size_t(r));
    if (ioff)
        *ioff += w > 0 ? w : 0;
    else if (w < r)
        lseek64(in, (w > 0 ? w : 0) - r, SEEK_CUR);
    if (ooff && w > 0) *ooff += w;
    return w;
}
EXP ssize_t sendfile64(int out, int in, off64_t* off, size_t n) noexcept
{
    if (!is_sim_fd(out) && !is_sim_fd(in)) return ret_errno(raw6(SYS_sendfile, out, in, (long)off, (long)n));
    return move_bytes(in, off, out, nullptr, n);
}
EXP ssize_t sendfile(int out, int in, off_t* off, size_t n) noexcept { return sendfile64(out, in, off, n); }
EXP ssize_t copy_file_range(int in, off64_t* ioff, int out, off64_t* ooff, size_t n, unsigned flags)
{
    if (!is_sim_fd(out) && !is_sim_fd(in)) return ret_errno(raw6(SYS_copy_file_range, in, (long)ioff, out, (long)ooff, (long)n, flags));
    return move_bytes(in, ioff, out, ooff, n);
}
EXP int fstat(int fd, struct stat* st) noexcept
{
    if (!is_sim_fd(fd)) return (int)ret_errno(raw6(SYS_fstat, fd, (long)st));
    const bool inside = g_in != 0;
    In in_;
    OpenFile* o = fd_get(fd);
    if (!o) return (int)ret_errno(-EBADF);
    if (o->kind == Kind::File)
    {
        if (!inside && faultable(o->path) && fault(F_SyscallFail)) return (int)ret_errno(-EIO);
        return (int)ret_errno(raw6(SYS_fstat, o->realfd, (long)st));
    }
    memset(st, 0, sizeof *st);
    st->st_mode = o->kind == Kind::Pipe ? S_IFIFO : o->kind == Kind::Sock ? S_IFSOCK : 0;
    return 0;
}
EXP int fstat64(int fd, struct stat64* st) noexcept { return fstat(fd, (struct stat*)st); }
EXP int fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    const long arg = va_arg(ap, long);
    va_end(ap);
    if (!is_sim_fd(fd)) return (int)ret_errno(raw6(SYS_fcntl, fd, cmd, arg));
    In in_;
    OpenFile* o = fd_get(fd);
    if (!o) return (int)ret_errno(-EBADF);
    switch (cmd)
    {
        case F_GETFL: return int(o->flags);
        case F_SETFL:
            if (o->kind == Kind::Sock && fault(F_SyscallFail)) return (int)ret_errno(-EPERM);
            o->flags = (o->flags & ~u32(O_NONBLOCK | O_APPEND)) | (u32(arg) & (O_NONBLOCK | O_APPEND)); return 0;
        case F_GETFD: return FD_CLOEXEC;
        case F_DUPFD:
        case F_DUPFD_CLOEXEC:
            if (fault(F_Emfile)) return (int)ret_errno(-EMFILE);
            return (int)ret_errno(fd_alloc(o));
        case F_SETFD: return 0;
        default: return (int)ret_errno(-EINVAL);
    }
}
EXP int fcntl64(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    const long arg = va_arg(ap, long);
    va_end(ap);
    return fcntl(fd, cmd, arg);
}
EXP int ioctl(int fd, unsigned long req, ...) noexcept
{
    va_list ap;
    va_start(ap, req);
    void* arg = va_arg(ap, void*);
    va_end(ap);
    if (!is_sim_fd(fd)) return (int)ret_errno(raw6(SYS_ioctl, fd, (long)req, (long)arg));
    In in_;
    OpenFile* o = fd_get(fd);
    if (!o) return (int)ret_errno(-EBADF);
    if (req == FIONREAD)
    {
        *(int*)arg = o->kind == Kind::Sock ? int(o->sock->avail()) : o->kind == Kind::Pipe ? int(o->pipe->avail()) : o->kind == Kind::File ? int(file_size(o) - o->pos) : 0;
        return 0;
    }
    return (int)ret_errno(-ENOTTY);
}
EXP int pipe2(int* fds, int flags) noexcept
{
    if (!on()) return (int)ret_errno(raw6(SYS_pipe2, (long)fds, flags));
    SYSENTRY(64);
    return (int)ret_errno(k_pipe(fds, flags));
}
EXP int pipe(int* fds) noexcept { return pipe2(fds, 0); }
EXP int poll(pollfd* p, nfds_t n, int timeout)
{
    if (!on() || (n && p[0].fd >= kSimFds)) return (int)ret_errno(raw6(SYS_poll, (long)p, (long)n, timeout));
    SYSENTRY(65);
    const u64 dl = timeout > 0 ? g_now + u64(timeout) * 1000000ull : 0;
    for (;;)
    {
        int c = 0;
        for (nfds_t i = 0; i < n; ++i)
        {
            OpenFile* o = fd_get(p[i].fd);
            p[i].revents = o ? short(do_poll(o) & (p[i].events | POLLERR | POLLHUP)) : short(POLLNVAL);
            if (p[i].revents) ++c;
        }
        if (c || timeout == 0 || (dl && g_now >= dl)) return c;
        block("poll", 0, std::min<u64>(dl ? dl : ~0ull, g_now + 50000));
    }
}
EXP int ppoll(pollfd* p, nfds_t n, const timespec* ts, const sigset_t* sm)
{
    if (!on() || (n && p[0].fd >= kSimFds)) return (int)ret_errno(raw6(SYS_ppoll, (long)p, (long)n, (long)ts, (long)sm, 8));
    return poll(p, n, ts ? int(ts->tv_sec * 1000 + (ts->tv_nsec + 999999) / 1000000) : -1);
}

// ---- sockets: system calls
EXP int socket(int dom, int type, int) noexcept
{
    if (!on()) return (int)ret_errno(raw6(SYS_socket, dom, type, 0));
    SYSENTRY(66);
    if (fault(F_Emfile)) return (int)ret_errno(-EMFILE);
    OpenFile* o = of_new(Kind::Sock);
    o->sock = sock_new();
    o->sock->local.family = dom;
    o->flags = O_RDWR | (type & SOCK_NONBLOCK ? O_NONBLOCK : 0);
    return (int)ret_errno(fd_alloc(o));
}
static Sock* sock_of(int fd, int* err)
{
    OpenFile* o = fd_get(fd);
    if (!o)
    {
        *err = EBADF;
        return nullptr;
    }
    if (o->kind != Kind::Sock)
    {
        *err = ENOTSOCK;
        return nullptr;
    }
    return o->sock;
}
#define SOCK_OR_FAIL(fd)              \
    int err_ = 0;                     \
    Sock* s = sock_of(fd, &err_);     \
    if (!s)                           \
    {                                 \
        errno = err_;                 \
        return -1;                    \
    }
EXP int bind(int fd, const sockaddr* a, socklen_t n) noexcept
{
    SYSENTRY(67);
    SOCK_OR_FAIL(fd);
    if (fault(F_SyscallFail)) return (int)ret_errno(-EADDRINUSE);
    return (int)ret_errno(sock_bind(s, addr_of(a, n)));
}
EXP int listen(int fd, int b) noexcept
{
    SYSENTRY(68);
    SOCK_OR_FAIL(fd);
    if (fault(F_SyscallFail)) return (int)ret_errno(-EOPNOTSUPP);
    return (int)ret_errno(sock_listen(s, b));
}
EXP int connect(int fd, const sockaddr* a, socklen_t n)
{
    SYSENTRY(69);
    SOCK_OR_FAIL(fd);
    OpenFile* o = fd_get(fd);
    if (s->st == SS::Connected) return (int)ret_errno(-EISCONN);
    if (s->st != SS::Connecting) sock_connect(s, addr_of(a, n));
    else if (o->flags & O_NONBLOCK) return (int)ret_errno(-EALREADY);
    if (o->flags & O_NONBLOCK) return (int)ret_errno(-EINPROGRESS);
    while (s->st == SS::Connecting) block("connect", (u64)&s->wq, 0);
    return s->st == SS::Connected ? 0 : (int)ret_errno(-s->err);
}
EXP int accept4(int fd, sockaddr* a, socklen_t* n, int flags)
{
    SYSENTRY(70);
    SOCK_OR_FAIL(fd);
    OpenFile* o = fd_get(fd);
    while (s->acceptq.empty())
    {
        if (o->flags & O_NONBLOCK) return (int)ret_errno(-EAGAIN);
        block("accept", (u64)&s->wq, 0);
    }
    Sock* c = s->acceptq.front();
    s->acceptq.pop_front();
    OpenFile* x = of_new(Kind::Sock);
    x->sock = c;
    x->flags = O_RDWR | (flags & SOCK_NONBLOCK ? O_NONBLOCK : 0);
    put_addr(c->peer, a, n);
    return (int)ret_errno(fd_alloc(x));
}
EXP int accept(int fd, sockaddr* a, socklen_t* n) { return accept4(fd, a, n, 0); }
EXP int setsockopt(int fd, int level, int opt, const void* v, socklen_t) noexcept
{
    In in_;
    SOCK_OR_FAIL(fd);
    if (level == SOL_SOCKET && fault(F_SyscallFail)) return (int)ret_errno(-ENOBUFS);
    if (level == SOL_SOCKET && (opt == SO_REUSEADDR || opt == SO_REUSEPORT) && v) s->reuse = *(const int*)v;
    if (level == IPPROTO_TCP && opt == 31 /* TCP_ULP */) return (int)ret_errno(-ENOENT);
    if (level == 282 /* SOL_TLS */) return (int)ret_errno(-ENOPROTOOPT);
    return 0;
}
EXP int getsockopt(int fd, int level, int opt, void* v, socklen_t* n) noexcept
{
    In in_;
    SOCK_OR_FAIL(fd);
    int x = 0;
    if (level == SOL_SOCKET && opt == SO_ERROR)
    {
        x = s->err;
        s->err = 0;
    }
    if (level == SOL_SOCKET && opt == SO_TYPE) x = SOCK_STREAM;
    if (*n >= sizeof x)
    {
        memcpy(v, &x, sizeof x);
        *n = sizeof x;
    }
    return 0;
}
EXP int getsockname(int fd, sockaddr* a, socklen_t* n) noexcept
{
    In in_;
    SOCK_OR_FAIL(fd);
    put_addr(s->local, a, n);
    return 0;
}
EXP int getpeername(int fd, sockaddr* a, socklen_t* n) noexcept
{
    In in_;
    SOCK_OR_FAIL(fd);
    if (s->st != SS::Connected) return (int)ret_errno(-ENOTCONN);
    put_addr(s->peer, a, n);
    return 0;
}
EXP ssize_t send(int fd, const void* d, size_t n, int flags)
{
    SYSENTRY(71);
    SOCK_OR_FAIL(fd);
    OpenFile* o = fd_get(fd);
    return ret_errno(blocking(o, flags & MSG_DONTWAIT, "send", [&] { return sock_send(s, (const char*)d, n, true); }));
}
EXP ssize_t recv(int fd, void* d, size_t n, int flags)
{
    SYSENTRY(72);
    SOCK_OR_FAIL(fd);
    OpenFile* o = fd_get(fd);
    return ret_errno(blocking(o, flags & MSG_DONTWAIT, "recv", [&] { return sock_recv(s, (char*)d, n, true, flags & MSG_PEEK); }));
}
EXP ssize_t sendto(int fd, const void* d, size_t n, int flags, const sockaddr*, socklen_t) { return send(fd, d, n, flags); }
EXP ssize_t recvfrom(int fd, void* d, size_t n, int flags, sockaddr*, socklen_t*) { return recv(fd, d, n, flags); }
EXP ssize_t sendmsg(int fd, const msghdr* m, int flags)
{
    std::string t;
    for (size_t i = 0; i < m->msg_iovlen; ++i) t.append((const char*)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
    return send(fd, t.data(), t.size(), flags);
}
EXP ssize_t recvmsg(int fd, msghdr* m, int flags)
{
    size_t n = 0;
    for (size_t i = 0; i < m->msg_iovlen; ++i) n += m->msg_iov[i].iov_len;
    std::string t(n, 0);
    const ssize_t r = recv(fd, t.data(), n, flags);
    size_t left = r > 0 ? size_t(r) : 0, at = 0;
    for (size_t i = 0; i < m->msg_iovlen && left; ++i)
    {
        const size_t k = std::min<size_t>(left, m->msg_iov[i].iov_len);
        memcpy(m->msg_iov[i].iov_base, t.data() + at, k);
        at += k, left -= k;
    }
    m->msg_flags = 0;
    m->msg_controllen = 0;
    return r;
}
EXP int shutdown(int fd, int how) noexcept
{
    SYSENTRY(73);
    SOCK_OR_FAIL(fd);
    if (s->st == SS::Listening)
    {
        // stops listening: pending and later accepts fail with EINVAL
        if (how != SHUT_WR)
        {
            for (size_t i = 0; i < g_listeners->size(); ++i)
                if ((*g_listeners)[i] == s)
                {
                    g_listeners->erase(g_listeners->begin() + long(i));
                    break;
                }
            for (Sock* c: s->acceptq) pkt_send(c->other, 2, "", 0);
            s->acceptq.clear();
            s->st = SS::Bound;
        }
        notify(s->wq);
        return 0;
    }
    if (s->st != SS::Connected) return (int)ret_errno(-ENOTCONN);
    if (how != SHUT_RD && !s->wr_shut)
    {
        s->wr_shut = true;
        pkt_send(s->other, 1, "", 0);
    }
    if (how != SHUT_WR) s->rd_shut = true;
    notify(s->wq);
    return 0;
}
EXP int getaddrinfo(const char* node, const char* service, const addrinfo* hints, addrinfo** res)
{
    In in_;
    in_addr a4{};
    if (!node || !strcmp(node, "localhost"))
        a4.s_addr = htonl(INADDR_LOOPBACK);
    else if (inet_pton(AF_INET, node, &a4) != 1)
    {
        if (strncmp(node, "host", 4)) return EAI_NONAME;
        a4.s_addr = htonl(0x0a000001);
    }
    addrinfo* r = (addrinfo*)calloc(1, sizeof(addrinfo) + sizeof(sockaddr_in));
    r->ai_family = AF_INET;
    r->ai_socktype = hints ? hints->ai_socktype : SOCK_STREAM;
    r->ai_addrlen = sizeof(sockaddr_in);
    auto* in = (sockaddr_in*)(r + 1);
    in->sin_family = AF_INET;
    in->sin_addr = a4;
    in->sin_port = htons(u16(service ? atoi(service) : 0));
    r->ai_addr = (sockaddr*)in;
    *res = r;
    return 0;
}
EXP void freeaddrinfo(addrinfo*) noexcept {}

template<typename T>
static T real_fn(const char* n)
{
    return (T)dlsym(RTLD_NEXT, n);
}
// ---- files by path: system calls ------------------------------------------------------------------------------------
// a path relative to a directory descriptor, as a path of the simulated disk
static const char* resolve_at(int d, const char* p, std::string& hold)
{
    if (!on() || d == AT_FDCWD || !p || *p == '/') return p;
    In in_;
    std::string dir;
    if (is_sim_fd(d))
    {
        OpenFile* o = fd_get(d);
        if (!o || o->kind != Kind::File) return p;
        dir = o->path;
    }
    else
    {
        char link[64], b[PATH_MAX];
        snprintf(link, sizeof link, "/proc/self/fd/%d", d);
        const long n = raw6(SYS_readlink, (long)link, (long)b, sizeof b - 1);
        if (n <= 0) return p;
        dir.assign(b, size_t(n));
        if (dir.compare(0, g_real_root.size(), g_real_root) == 0) dir = g_root + dir.substr(g_real_root.size());
    }
    hold = dir + "/" + p;
    return hold.c_str();
}
EXP int openat(int dfd, const char* p, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    const mode_t mode = flags & (O_CREAT | O_TMPFILE) ? va_arg(ap, mode_t) : 0;
    va_end(ap);
    std::string at;
    p = resolve_at(dfd, p, at);
    if (!on() || !in_scratch(p) || (flags & O_TMPFILE) == O_TMPFILE) return (int)ret_errno(raw6(SYS_openat, dfd, (long)(on() ? tr(p) : p), flags, mode));
    SYSENTRY(74);
    return (int)ret_errno(k_open(p, flags, mode, true));
}
EXP int open(const char* p, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    const mode_t mode = flags & (O_CREAT | O_TMPFILE) ? va_arg(ap, mode_t) : 0;
    va_end(ap);
    return openat(AT_FDCWD, p, flags, mode);
}
EXP int open64(const char* p, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    const mode_t mode = flags & (O_CREAT | O_TMPFILE) ? va_arg(ap, mode_t) : 0;
    va_end(ap);
    return openat(AT_FDCWD, p, flags, mode);
}
EXP int openat64(int d, const char* p, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    const mode_t mode = flags & (O_CREAT | O_TMPFILE) ? va_arg(ap, mode_t) : 0;
    va_end(ap);
    return openat(d, p, flags, mode);
}
EXP int __openat_2(int d, const char* p, int flags) { return openat(d, p, flags); }
EXP int __openat64_2(int d, const char* p, int flags) { return openat(d, p, flags); }
EXP int __open_2(const char* p, int flags) { return openat(AT_FDCWD, p, flags); }
EXP int __open64_2(const char* p, int flags) { return openat(AT_FDCWD, p, flags); }
EXP ssize_t __read_chk(int fd, void* d, size_t n, size_t) { return read(fd, d, n); }
EXP int creat(const char* p, mode_t mode) { return openat(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }
EXP int creat64(const char* p, mode_t mode) { return openat(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }
EXP int unlinkat(int d, const char* p, int flags) noexcept
{
    std::string at;
    p = resolve_at(d, p, at);
    if (!in_scratch(p)) return (int)ret_errno(raw6(SYS_unlinkat, d, (long)p, flags));
    SYSENTRY(75);
    return (int)ret_errno(k_unlink(p, flags, true));
}
EXP int unlink(const char* p) noexcept { return unlinkat(AT_FDCWD, p, 0); }
EXP int rmdir(const char* p) noexcept { return unlinkat(AT_FDCWD, p, AT_REMOVEDIR); }
EXP int remove(const char* p) noexcept
{
    int r = unlink(p);
    if (r < 0 && errno == EISDIR) r = rmdir(p);
    return r;
}
EXP int rename(const char* a, const char* b) noexcept
{
    if (!in_scratch(a)) return (int)ret_errno(raw6(SYS_rename, (long)a, (long)b));
    SYSENTRY(76);
    return (int)ret_errno(k_rename(a, b, true));
}
EXP int renameat2(int da, const char* a, int db, const char* b, unsigned flags) noexcept
{
    std::string ha, hb;
    a = resolve_at(da, a, ha);
    b = resolve_at(db, b, hb);
    if (!in_scratch(a) || (flags & ~1u)) return (int)ret_errno(raw6(SYS_renameat2, da, (long)a, db, (long)b, flags));
    if ((flags & 1u) && raw6(SYS_faccessat, AT_FDCWD, (long)tr(b), F_OK) == 0) return (int)ret_errno(-EEXIST);
    return rename(a, b);
}
EXP int renameat(int da, const char* a, int db, const char* b) noexcept { return renameat2(da, a, db, b, 0); }
EXP int mkdir(const char* p, mode_t m) noexcept
{
    if (!in_scratch(p)) return (int)ret_errno(raw6(SYS_mkdir, (long)p, m));
    SYSENTRY(77);
    return (int)ret_errno(k_mkdir(p, m, true));
}
EXP int mkdirat(int d, const char* p, mode_t m) noexcept
{
    std::string at;
    p = resolve_at(d, p, at);
    if (d != AT_FDCWD && !in_scratch(p)) return (int)ret_errno(raw6(SYS_mkdirat, d, (long)p, m));
    return mkdir(p, m);
}
EXP int truncate64(const char* p, off64_t n) noexcept
{
    if (!in_scratch(p)) return (int)ret_errno(raw6(SYS_truncate, (long)p, n));
    SYSENTRY(78);
    const i64 fd = k_open(p, O_WRONLY, 0, false);
    if (fd < 0) return (int)ret_errno(fd);
    const i64 r = k_ftruncate(fd_get(int(fd)), u64(n), true);
    k_close(int(fd));
    return (int)ret_errno(r);
}
EXP int truncate(const char* p, off_t n) noexcept { return truncate64(p, n); }

// ---- the working directory is /sim, whatever the real scratch directory is called
static long stat_at(int d, const char* p, void* st, int flags)
{
    std::string at;
    p = resolve_at(d, p, at);
    if (!at.empty()) d = AT_FDCWD;
    if (on() && !g_in && d == AT_FDCWD && in_scratch(p) && faultable(norm(p)) && fault(F_StatFail)) return -EIO;
    return raw6(SYS_newfstatat, d, (long)(on() && d == AT_FDCWD ? tr(p) : p), (long)st, flags);
}
EXP int stat(const char* __restrict p, struct stat* __restrict st) noexcept { return (int)ret_errno(stat_at(AT_FDCWD, p, st, 0)); }
EXP int lstat(const char* __restrict p, struct stat* __restrict st) noexcept { return (int)ret_errno(stat_at(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW)); }
EXP int stat64(const char* __restrict p, struct stat64* __restrict st) noexcept { return (int)ret_errno(stat_at(AT_FDCWD, p, st, 0)); }
EXP int lstat64(const char* __restrict p, struct stat64* __restrict st) noexcept { return (int)ret_errno(stat_at(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW)); }
EXP int fstatat(int d, const char* __restrict p, struct stat* __restrict st, int flags) noexcept
{
    if (is_sim_fd(d) && p && !*p && (flags & AT_EMPTY_PATH)) return fstat(d, st);
    return (int)ret_errno(stat_at(d, p, st, flags));
}
EXP int fstatat64(int d, const char* __restrict p, struct stat64* __restrict st, int flags) noexcept { return fstatat(d, p, (struct stat*)st, flags); }
EXP int faccessat(int d, const char* p, int m, int flags) noexcept { return (int)ret_errno(raw6(SYS_faccessat2, d, (long)(on() && d == AT_FDCWD ? tr(p) : p), m, flags)); }
EXP int statx(int d, const char* __restrict p, int flags, unsigned mask, struct statx* __restrict st) noexcept
{
    if (on())
    {
        if (is_sim_fd(d) && p && !*p && (flags & AT_EMPTY_PATH))
        {
            In in_;
            OpenFile* o = fd_get(d);
            if (!o || o->kind != Kind::File) return (int)ret_errno(-EBADF);
            return (int)ret_errno(raw6(SYS_statx, o->realfd, (long)"", flags, mask, (long)st));
        }
        std::string at;
        p = resolve_at(d, p, at);
        if (d == AT_FDCWD || !at.empty()) return (int)ret_errno(raw6(SYS_statx, AT_FDCWD, (long)tr(p), flags, mask, (long)st));
    }
    return (int)ret_errno(raw6(SYS_statx, d, (long)p, flags, mask, (long)st));
}
EXP int utimensat(int d, const char* p, const timespec* ts, int flags) noexcept
{
    std::string at;
    p = resolve_at(d, p, at);
    return (int)ret_errno(raw6(SYS_utimensat, at.empty() ? d : AT_FDCWD, (long)(on() && p && (d == AT_FDCWD || !at.empty()) ? tr(p) : p), (long)ts, flags));
}
EXP int fchmodat(int d, const char* p, mode_t m, int) noexcept
{
    std::string at;
    p = resolve_at(d, p, at);
    return (int)ret_errno(raw6(SYS_fchmodat, at.empty() ? d : AT_FDCWD, (long)(on() && (d == AT_FDCWD || !at.empty()) ? tr(p) : p), m));
}
EXP int fchmod(int fd, mode_t m) noexcept
{
    if (!is_sim_fd(fd)) return (int)ret_errno(raw6(SYS_fchmod, fd, m));
    In in_;
    OpenFile* o = fd_get(fd);
    if (!o) return (int)ret_errno(-EBADF);
    return o->kind == Kind::File ? (int)ret_errno(raw6(SYS_fchmod, o->realfd, m)) : 0;
}
EXP int statvfs(const char* __restrict p, struct statvfs* __restrict st) noexcept
{
    static auto real = real_fn<int (*)(const char*, struct statvfs*)>("statvfs");
    In in_;
    return real(on() ? tr(p) : p, st);
}
EXP int chmod(const char* p, mode_t m) noexcept { return (int)ret_errno(raw6(SYS_chmod, (long)(on() ? tr(p) : p), m)); }
EXP int access(const char* p, int m) noexcept { return (int)ret_errno(raw6(SYS_access, (long)(on() ? tr(p) : p), m)); }
EXP int symlink(const char* to, const char* p) noexcept { return (int)ret_errno(raw6(SYS_symlink, (long)to, (long)(on() ? tr(p) : p))); }
EXP ssize_t readlink(const char* __restrict p, char* __restrict b, size_t n) noexcept { return ret_errno(raw6(SYS_readlink, (long)(on() ? tr(p) : p), (long)b, (long)n)); }
EXP char* getcwd(char* b, size_t n) noexcept
{
    static auto real = real_fn<char* (*)(char*, size_t)>("getcwd");
    if (!on()) return real(b, n);
    if (!b) b = (char*)malloc(n = std::max<size_t>(n, 16));
    if (n < 5)
    {
        errno = ERANGE;
        return nullptr;
    }
    strcpy(b, "/sim");
    return b;
}
EXP char* realpath(const char* __restrict p, char* __restrict out) noexcept
{
    static auto real = real_fn<char* (*)(const char*, char*)>("realpath");
    if (!on()) return real(p, out);
    char buf[PATH_MAX + 1];
    {
        In in_;
        if (!real(tr(p), buf)) return nullptr;
    }
    std::string s = buf;
    if (s.compare(0, g_real_root.size(), g_real_root) == 0) s = g_root + s.substr(g_real_root.size());
    if (!out) out = (char*)malloc(PATH_MAX + 1);
    strcpy(out, s.c_str());
    return out;
}

// ---- stdio streams over simulated files (only as much as libstdc++'s file streams use)
EXP FILE* fopen64(const char* p, const char* mode)
{
    if (!in_scratch(p))
    {
        static auto real = real_fn<FILE* (*)(const char*, const char*)>("fopen64");
        return real(p, mode);
    }
    SYSENTRY(79);
    int flags = O_RDONLY;
    const bool plus = strchr(mode, '+');
    if (mode[0] == 'w') flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    else if (mode[0] == 'a') flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    else if (plus) flags = O_RDWR;
    const i64 fd = k_open(p, flags, 0666, true);
    if (fd < 0)
    {
        errno = int(-fd);
        return nullptr;
    }
    FakeFile* f = (FakeFile*)calloc(1, 512);
    f->magic = kFakeMagic;
    f->fd = int(fd);
    if (!g_fakes) g_fakes = new std::set<void*>();
    g_fakes->insert(f);
    return (FILE*)f;
}
EXP FILE* fopen(const char* p, const char* mode) { return fopen64(p, mode); }
EXP int fclose(FILE* f)
{
    if (FakeFile* k = fake(f))
    {
        SYSENTRY(80);
        g_fakes->erase(f);
        return (int)ret_errno(k_close(k->fd));
    }
    static auto real = real_fn<int (*)(FILE*)>("fclose");
    return real(f);
}
EXP int fileno(FILE* f) noexcept
{
    if (FakeFile* k = fake(f)) return k->fd;
    static auto real = real_fn<int (*)(FILE*)>("fileno");
    return real(f);
}
EXP int fflush(FILE* f)
{
    if (f && fake(f)) return 0;
    static auto real = real_fn<int (*)(FILE*)>("fflush");
    return real(f);
}
EXP int setvbuf(FILE* f, char* b, int m, size_t n) noexcept
{
    if (fake(f)) return 0;
    static auto real = real_fn<int (*)(FILE*, char*, int, size_t)>("setvbuf");
    return real(f, b, m, n);
}

// ---- directory listing: the order is the environment's choice
static FakeDir* make_dir(int fd)
{
    FakeDir* d = new FakeDir();
    d->magic = kDirMagic;
    d->fd = fd;
    OpenFile* o = fd_get(fd);
    const int realfd = o && o->kind == Kind::File ? o->realfd : fd;
    std::vector<char> buf(65536);
    for (;;)
    {
        const long n = raw6(SYS_getdents64, realfd, (long)buf.data(), long(buf.size()));
        if (n <= 0) break;
        long p = 0;
        while (p < n)
        {
            struct linux_dirent64
            {
                u64 ino;
                i64 off;
                u16 reclen;
                u8 type;
                char name[];
            }* e = (linux_dirent64*)(buf.data() + p);
            dirent x{};
            x.d_ino = 1;
            x.d_type = e->type;
            strncpy(x.d_name, e->name, sizeof x.d_name - 1);
            d->ents.push_back(x);
            p += e->reclen;
        }
    }
    std::sort(d->ents.begin(), d->ents.end(), [](const dirent& a, const dirent& b) { return strcmp(a.d_name, b.d_name) < 0; });
    for (size_t i = d->ents.size(); i > 1; --i)
    {
        const size_t j = i - 1 - size_t(decide_p(Env, i, 0.3));
        std::swap(d->ents[i - 1], d->ents[j]);
    }
    return d;
}
EXP DIR* opendir(const char* p)
{
    if (!in_scratch(p))
    {
        static auto real = real_fn<DIR* (*)(const char*)>("opendir");
        return real(p);
    }
    SYSENTRY(81);
    const long fd = raw6(SYS_openat, AT_FDCWD, (long)tr(p), O_RDONLY | O_DIRECTORY | O_CLOEXEC);
    if (fd < 0)
    {
        errno = int(-fd);
        return nullptr;
    }
    return (DIR*)make_dir(int(fd));
}
EXP DIR* fdopendir(int fd)
{
    if (!on())
    {
        static auto real = real_fn<DIR* (*)(int)>("fdopendir");
        return real(fd);
    }
    SYSENTRY(82);
    return (DIR*)make_dir(fd);
}
static FakeDir* fake_dir(DIR* d) { return on() && ((FakeDir*)d)->magic == kDirMagic ? (FakeDir*)d : nullptr; }
EXP dirent64* readdir64(DIR* d)
{
    if (FakeDir* f = fake_dir(d))
    {
        if (f->pos >= f->ents.size()) return nullptr;
        return (dirent64*)&f->ents[f->pos++];
    }
    static auto real = real_fn<dirent64* (*)(DIR*)>("readdir64");
    return real(d);
}
EXP dirent* readdir(DIR* d) { return (dirent*)readdir64(d); }
EXP int closedir(DIR* d)
{
    if (FakeDir* f = fake_dir(d))
    {
        In in_;
        if (is_sim_fd(f->fd))
            k_close(f->fd);
        else
            raw6(SYS_close, f->fd);
        delete f;
        return 0;
    }
    static auto real = real_fn<int (*)(DIR*)>("closedir");
    return real(d);
}
EXP int dirfd(DIR* d) noexcept
{
    if (FakeDir* f = fake_dir(d)) return f->fd;
    static auto real = real_fn<int (*)(DIR*)>("dirfd");
    return real(d);
}
