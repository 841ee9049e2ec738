#include "ring.h"
#include <algorithm>
#include <cerrno>
#include <condition_variable>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <memory>
#include <mutex>
#include <poll.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <thread>
#include <unistd.h>
#include <vector>
namespace ring
{
std::function<Act(const io_uring_sqe&)> hook;
struct Ring
{
    std::mutex m;
    std::condition_variable cv;
    std::vector<io_uring_sqe> sqes;
    std::vector<io_uring_cqe> cqes;
    std::deque<io_uring_cqe> over;
    unsigned sqh = 0, sqt = 0, cqh = 0, cqt = 0, flags = 0, zero = 0;
    bool dead = false;
    void flush()
    {
        while (!over.empty() && __atomic_load_n(&cqt, __ATOMIC_ACQUIRE) - __atomic_load_n(&cqh, __ATOMIC_ACQUIRE) < cqes.size())
        {
            cqes[cqt & (cqes.size() - 1)] = over.front();
            over.pop_front();
            __atomic_store_n(&cqt, cqt + 1, __ATOMIC_RELEASE);
        }
    }
    void post(uint64_t ud, int res)
    {
        std::lock_guard l(m);
        if (dead) return;
        io_uring_cqe c{};
        c.user_data = ud;
        c.res = res;
        over.push_back(c);
        cv.notify_all();
    }
};
static int perform(const io_uring_sqe& s, long max_len)
{
    auto p = (void*)s.addr;
    size_t len = s.len;
    if (max_len >= 0 && (long)len > max_len) len = max_len;
    long r = 0;
    struct stat st{};
    const bool in = s.opcode == IORING_OP_READ || s.opcode == IORING_OP_READV || s.opcode == IORING_OP_ACCEPT;
    const bool out = s.opcode == IORING_OP_WRITE || s.opcode == IORING_OP_WRITEV || s.opcode == IORING_OP_SENDMSG;
    bool stream = s.off == (__u64)-1;
    if ((in || out) && fstat(s.fd, &st) == 0 && !S_ISREG(st.st_mode))
    {
        stream = true;  // no positions there
        // like the kernel: wait for it, even if the descriptor is non-blocking
        pollfd f{s.fd, (short)(in ? POLLIN : POLLOUT), 0};
        poll(&f, 1, -1);
    }
    switch (s.opcode)
    {
        case IORING_OP_NOP: return 0;
        case IORING_OP_READ: r = stream ? read(s.fd, p, len) : pread(s.fd, p, len, s.off); break;
        case IORING_OP_WRITE: r = stream ? write(s.fd, p, len) : pwrite(s.fd, p, len, s.off); break;
        case IORING_OP_READV: r = stream ? readv(s.fd, (iovec*)p, s.len) : preadv(s.fd, (iovec*)p, s.len, s.off); break;
        case IORING_OP_WRITEV: r = stream ? writev(s.fd, (iovec*)p, s.len) : pwritev(s.fd, (iovec*)p, s.len, s.off); break;
        case IORING_OP_ACCEPT: r = accept4(s.fd, (sockaddr*)p, (socklen_t*)s.addr2, s.accept_flags); break;
        case IORING_OP_CONNECT: r = connect(s.fd, (sockaddr*)p, (socklen_t)s.off); break;
        case IORING_OP_OPENAT: r = openat(s.fd, (const char*)p, s.open_flags, s.len); break;
        case IORING_OP_CLOSE: r = close(s.fd); break;
        case IORING_OP_FSYNC: r = fdatasync(s.fd); break;
        case IORING_OP_FALLOCATE: r = fallocate(s.fd, s.len, s.off, s.addr); break;
        case IORING_OP_UNLINKAT: r = unlinkat(s.fd, (const char*)p, s.unlink_flags); break;
        case IORING_OP_SENDMSG: r = sendmsg(s.fd, (msghdr*)p, s.msg_flags | MSG_NOSIGNAL); break;
        case IORING_OP_SPLICE:
        {
            loff_t oi = s.splice_off_in, oo = s.off;
            r = splice(s.splice_fd_in, oi == -1 ? nullptr : &oi, s.fd, oo == -1 ? nullptr : &oo, len, 0);
            break;
        }
        case IORING_OP_POLL_ADD:
        {
            pollfd f{s.fd, (short)s.poll32_events, 0};
            r = poll(&f, 1, -1);
            if (r > 0) r = f.revents;
            break;
        }
        case IORING_OP_TIMEOUT:
        {
            auto* t = (__kernel_timespec*)p;
            timespec ts{(time_t)t->tv_sec, (long)t->tv_nsec};
            if (ts.tv_sec > 0 || ts.tv_nsec > 0) nanosleep(&ts, nullptr);
            return -ETIME;
        }
        case 200: r = ftruncate(s.fd, s.off); break;
        default: return -EINVAL;
    }
    return r < 0 ? -errno : (int)r;
}
static bool blocks(const io_uring_sqe& s)
{
    struct stat st{};
    switch (s.opcode)
    {
        case IORING_OP_READ: case IORING_OP_WRITE: case IORING_OP_READV: case IORING_OP_WRITEV:
            return fstat(s.fd, &st) == 0 && !S_ISREG(st.st_mode);
        case IORING_OP_ACCEPT: case IORING_OP_CONNECT: case IORING_OP_SENDMSG: case IORING_OP_SPLICE: case IORING_OP_POLL_ADD: case IORING_OP_TIMEOUT:
            return true;
        default: return false;
    }
}
static void start(std::shared_ptr<Ring> r, io_uring_sqe s)
{
    Act a = hook ? hook(s) : Act{};
    if (a.fail && !a.delay_ms) { r->post(s.user_data, a.res); return; }
    if (!a.delay_ms && !blocks(s)) { r->post(s.user_data, perform(s, a.max_len)); return; }
    int early = 0;
    bool done = false;
    if (!a.fail && a.delay_ms && !a.late_effect && !blocks(s)) { early = perform(s, a.max_len); done = true; }
    std::thread([=]
    {
        if (a.delay_ms) std::this_thread::sleep_for(std::chrono::milliseconds(a.delay_ms));
        r->post(s.user_data, a.fail ? a.res : done ? early : perform(s, a.max_len));
    }).detach();
}
static std::shared_ptr<Ring>& of(io_uring* u) { return *(std::shared_ptr<Ring>*)u->sq.ring_ptr; }
}
using namespace ring;
extern "C" {
int io_uring_queue_init_params(unsigned entries, io_uring* u, io_uring_params* p)
{
    unsigned n = 1;
    while (n < entries) n *= 2;
    auto r = std::make_shared<Ring>();
    r->sqes.resize(n);
    r->cqes.resize(2 * n);
    memset(u, 0, sizeof *u);
    u->sq.khead = &r->sqh; u->sq.ktail = &r->sqt; u->sq.kflags = &r->flags; u->sq.kdropped = &r->zero;
    u->sq.sqes = r->sqes.data(); u->sq.ring_mask = n - 1; u->sq.ring_entries = n;
    u->cq.khead = &r->cqh; u->cq.ktail = &r->cqt; u->cq.kflags = &r->zero; u->cq.koverflow = &r->zero;
    u->cq.cqes = r->cqes.data(); u->cq.ring_mask = 2 * n - 1; u->cq.ring_entries = 2 * n;
    u->flags = p ? p->flags & ~(unsigned)(IORING_SETUP_SQPOLL | IORING_SETUP_SQE128 | IORING_SETUP_CQE32) : 0;
    u->ring_fd = u->enter_ring_fd = -1;
    u->sq.ring_ptr = new std::shared_ptr<Ring>(r);
    return 0;
}
int io_uring_queue_init(unsigned entries, io_uring* u, unsigned flags)
{
    io_uring_params p{};
    p.flags = flags;
    return io_uring_queue_init_params(entries, u, &p);
}
void io_uring_queue_exit(io_uring* u)
{
    if (!u->sq.ring_ptr) return;
    {
        std::lock_guard l(of(u)->m);
        of(u)->dead = true;
    }
    // the memory is kept: operations still in flight refer to it
    u->sq.ring_ptr = nullptr;
}
int io_uring_submit(io_uring* u)
{
    auto& r = of(u);
    unsigned n = 0;
    while (u->sq.sqe_head != u->sq.sqe_tail)
    {
        auto s = u->sq.sqes[u->sq.sqe_head & u->sq.ring_mask];
        ++u->sq.sqe_head;
        ++n;
        __atomic_store_n(&r->sqh, u->sq.sqe_head, __ATOMIC_RELEASE);
        start(r, s);
    }
    std::lock_guard l(r->m);
    r->flush();
    return (int)n;
}
int io_uring_submit_and_wait(io_uring* u, unsigned want)
{
    int n = io_uring_submit(u);
    auto& r = of(u);
    std::unique_lock l(r->m);
    r->flush();
    while (r->cqt - __atomic_load_n(&r->cqh, __ATOMIC_ACQUIRE) < want)
    {
        r->cv.wait(l);
        r->flush();
    }
    return n;
}
int io_uring_register_iowq_aff(io_uring*, size_t, const cpu_set_t*) { return 0; }
int __io_uring_get_cqe(io_uring* u, io_uring_cqe** out, unsigned, unsigned want, sigset_t*)
{
    io_uring_submit_and_wait(u, want ? want : 1);
    *out = &u->cq.cqes[*u->cq.khead & u->cq.ring_mask];
    return 0;
}
}
