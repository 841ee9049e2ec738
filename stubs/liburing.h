// The installed liburing lacks io_uring_prep_ftruncate; everything else is the installed header.
#pragma once
#include_next <liburing.h>
#ifndef IORING_OP_FTRUNCATE
#define SIM_IORING_OP_FTRUNCATE 55
#endif
static inline void io_uring_prep_ftruncate(struct io_uring_sqe* sqe, int fd, loff_t len)
{
    io_uring_prep_rw(SIM_IORING_OP_FTRUNCATE, sqe, fd, 0, 0, (__u64)len);
}
