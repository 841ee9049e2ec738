// Threads, mutexes, condition variables, clocks and the like: libc names interposed, behaviour simulated.
#include "int.h"

#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <sys/auxv.h>
#include <sys/random.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/utsname.h>
#include <unistd.h>

using namespace sim;
#define EXP extern "C" SIM_API

namespace sim
{
    static std::unordered_map<u64, Clock*>* g_clocks = nullptr;  // happens-before clocks of mutexes, once objects, ...
    static Clock& clock_at(const volatile void* p)
    {
        if (!g_clocks) g_clocks = new std::unordered_map<u64, Clock*>();
        Clock*& c = (*g_clocks)[(u64)p];
        if (!c)
        {
            c = new Clock;
            c->clear();
        }
        return *c;
    }
    void pthread_reset()
    {
        if (g_clocks) g_clocks->clear();
        static int* env = nullptr;
        (void)env;
    }
    static inline bool sim_on() { return g_running && g_cur; }

    // ---- raw system calls
    static long raw6(long n, long a, long b, long c, long d, long e, long f)
    {
        long r;
        register long r10 asm("r10") = d;
        register long r8 asm("r8") = e;
        register long r9 asm("r9") = f;
        asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
        return r;
    }
    static long raw_errno(long r)
    {
        if (r < 0 && r > -4096)
        {
            errno = int(-r);
            return -1;
        }
        return r;
    }

    // wake one of the threads waiting on key; which one is the environment's choice
    static int wake_one(u64 key)
    {
        int ids[kMaxFibers], n = 0;
        for (int i = 0; i < g_nfibers; ++i)
            if (g_fibers[i].state == FState::Blocked && g_fibers[i].wait_key == key) ids[n++] = i;
        if (!n) return 0;
        wake(&g_fibers[ids[decide(Env, u64(n))]]);
        return 1;
    }

    constexpr i64 kWallBase = 1'760'000'000ll * 1'000'000'000ll;
    static i64 wall_now() { return kWallBase + i64(g_now) + wall_offset(); }
}  // namespace sim

// ---- threads -------------------------------------------------------------------------------------------------------
EXP int pthread_create(pthread_t* t, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
    if (!sim_on()) sim_error("thread created outside a run");
    if (!g_in)
    {
        sched_point(30);
        if (fault_rate(F_SyscallFail) > 0 && fault(F_SyscallFail)) return EAGAIN;
    }
    if (g_nfibers >= kMaxFibers - 1) return EAGAIN;
    const int id = fiber_create(fn, arg);
    int det = 0;
    if (attr) pthread_attr_getdetachstate(attr, &det);
    g_fibers[id].detached = det == PTHREAD_CREATE_DETACHED;
    *t = (pthread_t)(0x10000ull + u64(id));
    sched_point(31);
    return 0;
}
EXP pthread_t pthread_self()
{
    return (pthread_t)(0x10000ull + u64(g_cur ? g_cur->id : 0));
}
static Fiber* of_thread(pthread_t t)
{
    const u64 id = (u64)t - 0x10000ull;
    return id < u64(g_nfibers) ? &g_fibers[id] : nullptr;
}
EXP int pthread_join(pthread_t t, void** ret)
{
    sched_point(32);
    In in;
    Fiber* f = of_thread(t);
    if (!f || f->detached || f->joined) return EINVAL;
    if (f == g_cur) return EDEADLK;
    while (f->state != FState::Finished)
    {
        if (f->state == FState::Dead) sim_error("join of a dead thread");
        f->joiner = g_cur->id;
        block("join", 0, 0);
    }
    f->joined = true;
    hb_acquire(f->vc);
    if (ret) *ret = f->ret;
    return 0;
}
EXP int pthread_detach(pthread_t t)
{
    sched_point(33);
    Fiber* f = of_thread(t);
    if (!f) return ESRCH;
    f->detached = true;
    return 0;
}
EXP void pthread_exit(void*) { sim_error("pthread_exit is not simulated"); }
EXP int pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t*)
{
    if (sim_on() && !g_in && fault(F_SyscallFail)) return EINVAL;
    return 0;
}
EXP int pthread_setname_np(pthread_t, const char*) { return 0; }
EXP int pthread_sigmask(int how, const sigset_t* s, sigset_t* o) { return (int)raw6(SYS_rt_sigprocmask, how, (long)s, (long)o, 8, 0, 0) < 0 ? EINVAL : 0; }
EXP int sched_yield()
{
    sched_point(34);
    if (!sim_on() || g_in) return 0;
    In in;
    // let some other runnable thread go
    block("yield", 0, g_now + 100);
    return 0;
}
EXP void __cxa_thread_atexit_dummy() {}
EXP int __cxa_thread_atexit_impl(void (*fn)(void*), void* obj, void*)
{
    In in;
    Fiber* f = g_cur ? g_cur : &g_fibers[0];
    f->tls_dtors.push_back({fn, obj});
    return 0;
}

// ---- mutex ---------------------------------------------------------------------------------------------------------
static int mutex_lock_until(pthread_mutex_t* m, u64 deadline)
{
    if (!sim_on())
    {
        m->__data.__lock = 1;
        m->__data.__count++;
        return 0;
    }
    if (!g_in) sched_point(35);
    In in;
    kernel_access_check(m, sizeof *m, "(mutex lock) uses");
    const int me = g_cur->id + 1;
    const bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
    if (m->__data.__lock && m->__data.__owner == me)
    {
        if (rec)
        {
            m->__data.__count++;
            return 0;
        }
        if ((m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
        violation("deadlock", "thread T%d locks a mutex it already holds", g_cur->id);
    }
    while (m->__data.__lock)
    {
        if (!block("mutex", (u64)m, deadline) && m->__data.__lock) return ETIMEDOUT;
    }
    m->__data.__lock = 1;
    m->__data.__owner = me;
    m->__data.__count = 1;
    hb_acquire(clock_at(m));
    return 0;
}
EXP int pthread_mutex_lock(pthread_mutex_t* m) { return mutex_lock_until(m, 0); }
EXP int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!sim_on()) return mutex_lock_until(m, 0);
    if (!g_in) sched_point(36);
    if (m->__data.__lock)
    {
        if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE && m->__data.__owner == g_cur->id + 1)
        {
            m->__data.__count++;
            return 0;
        }
        return EBUSY;
    }
    In in;
    return mutex_lock_until(m, 0);
}
static void mutex_release(pthread_mutex_t* m)
{
    m->__data.__lock = 0;
    m->__data.__owner = 0;
    m->__data.__count = 0;
    hb_release(clock_at(m));
    wake_one((u64)m);
}
EXP int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!sim_on())
    {
        if (--m->__data.__count == 0) m->__data.__lock = 0;
        return 0;
    }
    {
        In in;
        kernel_access_check(m, sizeof *m, "(mutex unlock) uses");
        if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE && m->__data.__count > 1)
        {
            m->__data.__count--;
            return 0;
        }
        mutex_release(m);
    }
    if (!g_in) sched_point(37);
    return 0;
}
EXP int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
    memset(m, 0, sizeof *m);
    int t = 0;
    if (a) pthread_mutexattr_gettype(a, &t);
    m->__data.__kind = t;
    return 0;
}
EXP int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
EXP int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const timespec* ts)
{
    return mutex_lock_until(m, u64(ts->tv_sec) * 1000000000ull + u64(ts->tv_nsec));
}

// ---- rwlock: __data.__readers = number of readers, __data.__writers = 1 when write locked
EXP int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*)
{
    memset(l, 0, sizeof *l);
    return 0;
}
EXP int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
EXP int pthread_rwlock_rdlock(pthread_rwlock_t* l)
{
    if (!sim_on())
    {
        l->__data.__readers++;
        return 0;
    }
    if (!g_in) sched_point(38);
    In in;
    while (l->__data.__writers) block("rwlock(r)", (u64)l, 0);
    l->__data.__readers++;
    hb_acquire(clock_at(l));
    return 0;
}
EXP int pthread_rwlock_tryrdlock(pthread_rwlock_t* l)
{
    if (l->__data.__writers) return EBUSY;
    return pthread_rwlock_rdlock(l);
}
EXP int pthread_rwlock_wrlock(pthread_rwlock_t* l)
{
    if (!sim_on())
    {
        l->__data.__writers = 1;
        return 0;
    }
    if (!g_in) sched_point(39);
    In in;
    while (l->__data.__writers || l->__data.__readers) block("rwlock(w)", (u64)l, 0);
    l->__data.__writers = 1;
    hb_acquire(clock_at(l));
    hb_acquire(clock_at((char*)l + 1));
    return 0;
}
EXP int pthread_rwlock_trywrlock(pthread_rwlock_t* l)
{
    if (l->__data.__writers || l->__data.__readers) return EBUSY;
    return pthread_rwlock_wrlock(l);
}
EXP int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    if (!sim_on())
    {
        if (l->__data.__writers)
            l->__data.__writers = 0;
        else
            l->__data.__readers--;
        return 0;
    }
    {
        In in;
        if (l->__data.__writers)
        {
            l->__data.__writers = 0;
            hb_release(clock_at(l));
        }
        else
        {
            l->__data.__readers--;
            hb_release_join(clock_at((char*)l + 1));
        }
        wake_key((u64)l, kMaxFibers);
    }
    if (!g_in) sched_point(40);
    return 0;
}

// ---- condition variables --------------------------------------------------------------------------------------------
static int cond_wait_until(pthread_cond_t* c, pthread_mutex_t* m, u64 deadline)
{
    if (!sim_on()) sim_error("condition wait outside a run");
    sched_point(41);
    bool ok;
    {
        In in;
        if (fault(F_SpuriousWake))
        {
            mutex_release(m);
            --g_in;
            sched_point(42);
            ++g_in;
            ok = true;
        }
        else
        {
            mutex_release(m);
            ok = block("condvar", (u64)c, deadline);
        }
        mutex_lock_until(m, 0);
    }
    return ok ? 0 : ETIMEDOUT;
}
EXP int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait_until(c, m, 0); }
static u64 to_mono(clockid_t clk, const timespec* ts)
{
    i64 t = i64(ts->tv_sec) * 1000000000ll + ts->tv_nsec;
    if (clk == CLOCK_REALTIME) t -= kWallBase + wall_offset();
    else t += i64(mono_base());
    if (t < 1) t = 1;
    return u64(t);
}
EXP int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) { return cond_wait_until(c, m, to_mono(CLOCK_REALTIME, ts)); }
EXP int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const timespec* ts) { return cond_wait_until(c, m, to_mono(clk, ts)); }
EXP int pthread_cond_signal(pthread_cond_t* c)
{
    if (!sim_on()) return 0;
    if (!g_in) sched_point(43);
    In in;
    kernel_access_check(c, sizeof *c, "(condition signal) uses");
    wake_one((u64)c);
    return 0;
}
EXP int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (!sim_on()) return 0;
    if (!g_in) sched_point(44);
    In in;
    kernel_access_check(c, sizeof *c, "(condition broadcast) uses");
    wake_key((u64)c, kMaxFibers);
    return 0;
}
EXP int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*)
{
    memset(c, 0, sizeof *c);
    return 0;
}
EXP int pthread_cond_destroy(pthread_cond_t*) { return 0; }

// ---- once, thread-specific data -------------------------------------------------------------------------------------
EXP int pthread_once(pthread_once_t* o, void (*fn)())
{
    if (*o == 2)
    {
        if (sim_on())
        {
            In in;
            hb_acquire(clock_at(o));
        }
        return 0;
    }
    if (!sim_on())
    {
        *o = 1;
        fn();
        *o = 2;
        return 0;
    }
    {
        In in;
        while (*o == 1) block("once", (u64)o, 0);
        if (*o == 2)
        {
            hb_acquire(clock_at(o));
            return 0;
        }
        *o = 1;
    }
    try
    {
        fn();
    }
    catch (...)
    {
        In in;
        *o = 0;
        wake_key((u64)o, kMaxFibers);
        throw;
    }
    In in;
    *o = 2;
    hb_release(clock_at(o));
    wake_key((u64)o, kMaxFibers);
    return 0;
}
static unsigned g_next_key = 1;
EXP int pthread_key_create(pthread_key_t* k, void (*)(void*))
{
    *k = g_next_key++;
    return 0;
}
EXP int pthread_key_delete(pthread_key_t) { return 0; }
EXP int pthread_setspecific(pthread_key_t k, const void* v)
{
    In in;
    (g_cur ? g_cur : &g_fibers[0])->keys[k] = const_cast<void*>(v);
    return 0;
}
EXP void* pthread_getspecific(pthread_key_t k)
{
    Fiber* f = g_cur ? g_cur : &g_fibers[0];
    auto it = f->keys.find(k);
    return it == f->keys.end() ? nullptr : it->second;
}

// ---- static initialisation guards -----------------------------------------------------------------------------------
extern "C" uint8_t __tsan_atomic8_load(const volatile uint8_t*, int);
extern "C" void __tsan_atomic8_store(volatile uint8_t*, uint8_t, int);
EXP int __cxa_guard_acquire(uint64_t* g)
{
    uint8_t* b = (uint8_t*)g;
    if (!sim_on() || g_in)
    {
        if (b[0]) return 0;
        b[1] = 1;
        return 1;
    }
    for (;;)
    {
        if (__tsan_atomic8_load(b, 2)) return 0;
        if (!b[1])
        {
            b[1] = 1;
            b[2] = uint8_t(g_cur->id + 1);
            return 1;
        }
        if (b[2] == g_cur->id + 1) violation("deadlock", "recursive initialisation of a static variable");
        In in;
        block("static-init", (u64)g, 0);
    }
}
EXP void __cxa_guard_release(uint64_t* g)
{
    uint8_t* b = (uint8_t*)g;
    if (!sim_on() || g_in)
    {
        b[1] = 0;
        b[0] = 1;
        return;
    }
    b[1] = 0;
    __tsan_atomic8_store(b, 1, 3);
    In in;
    wake_key((u64)g, kMaxFibers);
}
EXP void __cxa_guard_abort(uint64_t* g)
{
    uint8_t* b = (uint8_t*)g;
    b[1] = 0;
    if (!sim_on()) return;
    In in;
    wake_key((u64)g, kMaxFibers);
}

// ---- time ----------------------------------------------------------------------------------------------------------
EXP int clock_gettime(clockid_t clk, timespec* ts)
{
    if (!sim_on()) return (int)raw_errno(raw6(SYS_clock_gettime, clk, (long)ts, 0, 0, 0, 0));
    if (!g_in) sched_point(45);
    const i64 t = clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE ? wall_now() : i64(g_now - mono_base());
    ts->tv_sec = t / 1000000000;
    ts->tv_nsec = t % 1000000000;
    return 0;
}
EXP int gettimeofday(timeval* tv, void*) noexcept
{
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
EXP time_t time(time_t* t) noexcept
{
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
EXP int nanosleep(const timespec* ts, timespec* rem)
{
    if (!sim_on()) return (int)raw_errno(raw6(SYS_nanosleep, (long)ts, (long)rem, 0, 0, 0, 0));
    sleep_ns(u64(ts->tv_sec) * 1000000000ull + u64(ts->tv_nsec));
    return 0;
}
EXP int clock_nanosleep(clockid_t clk, int flags, const timespec* ts, timespec*)
{
    if (flags & TIMER_ABSTIME)
    {
        const u64 d = to_mono(clk, ts);
        sleep_ns(d > g_now ? d - g_now : 0);
    }
    else
        sleep_ns(u64(ts->tv_sec) * 1000000000ull + u64(ts->tv_nsec));
    return 0;
}
EXP int usleep(useconds_t u)
{
    sleep_ns(u64(u) * 1000);
    return 0;
}
EXP unsigned sleep(unsigned s)
{
    sleep_ns(u64(s) * 1000000000ull);
    return 0;
}

// ---- futex and other system calls --------------------------------------------------------------------------------------
static long sim_futex(uint32_t* addr, int op, uint32_t val, const timespec* ts, uint32_t)
{
    const int cmd = op & FUTEX_CMD_MASK;
    switch (cmd)
    {
        case FUTEX_WAIT:
        case FUTEX_WAIT_BITSET:
        {
            sched_point(46);
            In in;
            kernel_access_check(addr, 4, "(futex wait) reads");
            if (*(volatile uint32_t*)addr != val)
            {
                errno = EAGAIN;
                return -1;
            }
            if (fault(F_SpuriousWake))
            {
                errno = EINTR;
                return -1;
            }
            u64 deadline = 0;
            if (ts) deadline = cmd == FUTEX_WAIT ? g_now + u64(ts->tv_sec) * 1000000000ull + u64(ts->tv_nsec) + 1 : to_mono(op & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
            if (!block("futex", (u64)addr, deadline))
            {
                errno = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        case FUTEX_WAKE:
        case FUTEX_WAKE_BITSET:
        {
            int n = 0;
            {
                In in;
                while (n < int(val) && wake_one((u64)addr)) ++n;
            }
            sched_point(47);
            return n;
        }
        default: sim_error("futex operation %d is not simulated", op);
    }
}
EXP long syscall(long n, ...) noexcept
{
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (long& x: a) x = va_arg(ap, long);
    va_end(ap);
    if (sim_on())
    {
        switch (n)
        {
            case SYS_futex: return sim_futex((uint32_t*)a[0], int(a[1]), uint32_t(a[2]), (const timespec*)a[3], uint32_t(a[5]));
            case SYS_gettid: return 10000 + g_cur->id;
            case SYS_clock_gettime: return clock_gettime(clockid_t(a[0]), (timespec*)a[1]);
            case SYS_getrandom:
            {
                In in;
                for (long i = 0; i < a[1]; ++i) ((u8*)a[0])[i] = u8(decide(Conf, 256));
                return a[1];
            }
            case SYS_io_uring_setup:
            case SYS_io_uring_enter:
            case SYS_io_uring_register: sim_error("raw io_uring system call is not simulated");
            default: break;
        }
    }
    return raw_errno(raw6(n, a[0], a[1], a[2], a[3], a[4], a[5]));
}
EXP pid_t gettid() noexcept { return sim_on() ? 10000 + g_cur->id : (pid_t)raw6(SYS_gettid, 0, 0, 0, 0, 0, 0); }
EXP pid_t getpid() noexcept { return sim_on() ? 9999 : (pid_t)raw6(SYS_getpid, 0, 0, 0, 0, 0, 0); }
EXP ssize_t getrandom(void* p, size_t n, unsigned)
{
    if (!sim_on()) return raw_errno(raw6(SYS_getrandom, (long)p, (long)n, 0, 0, 0, 0));
    In in;
    for (size_t i = 0; i < n; ++i) ((u8*)p)[i] = u8(decide(Conf, 256));
    return (ssize_t)n;
}
EXP int getentropy(void* p, size_t n)
{
    getrandom(p, n, 0);
    return 0;
}
EXP long sysconf(int name) noexcept
{
    static long (*real)(int) = nullptr;
    if (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF) return knobs().ncpu;
    if (name == _SC_PAGESIZE) return 4096;
    if (!real) real = (long (*)(int))dlsym(RTLD_NEXT, "sysconf");
    return real(name);
}
EXP int get_nprocs() noexcept { return knobs().ncpu; }
EXP int uname(utsname* u) noexcept
{
    const int r = (int)raw_errno(raw6(SYS_uname, (long)u, 0, 0, 0, 0, 0));
    if (sim_on() && r == 0)
    {
        if (!g_in && fault(F_InitFail))
        {
            errno = EFAULT;
            return -1;
        }
        strncpy(u->release, knobs().release, sizeof u->release - 1);
        strcpy(u->nodename, "sim");
    }
    return r;
}
EXP int isatty(int) noexcept { return 0; }
