// A stand-in for the kernel side of io_uring, for demonstrations: it runs on the installed liburing headers and
// performs each operation with the ordinary system call, at once or (blocking kinds) on a thread of its own.
#pragma once
#include <liburing.h>
#include <functional>
static inline void io_uring_prep_ftruncate(struct io_uring_sqe* sqe, int fd, loff_t len)
{
    io_uring_prep_rw(200, sqe, fd, nullptr, 0, (__u64)len);
}
namespace ring
{
struct Act
{
    int delay_ms = 0;        // complete this much later
    bool late_effect = false; // with delay_ms: the effect too happens later
    long max_len = -1;       // transfer at most this many bytes
    bool fail = false;       // complete with res, without effect
    int res = 0;
};
extern std::function<Act(const io_uring_sqe&)> hook;
}
