// Public interface of the simulator for scenarios (and between its own parts).
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>

#define SIM_API __attribute__((visibility("default")))
// For scenario functions that only touch oracle state: not instrumented.
#define SIM_NOINSTR __attribute__((no_sanitize("thread")))

namespace sim
{
    using u8 = uint8_t;
    using u16 = uint16_t;
    using u32 = uint32_t;
    using u64 = uint64_t;
    using i64 = int64_t;

    // ---- decisions: everything nondeterministic goes through these -------------------------------------------------
    enum Dk : u8
    {
        Work = 0,   // what the workload does
        Env = 1,    // what the environment does: delays, short transfers, faults, crash points
        Sched = 2,  // who runs next
        Conf = 3,   // per-run knobs (swarm configuration)
        DkCount = 4
    };
    SIM_API u64 decide(Dk k, u64 n);                 // uniform in [0,n); 0 is the simplest choice
    SIM_API u64 decide_p(Dk k, u64 n, double p0);    // 0 with probability p0, else uniform in [1,n)
    SIM_API bool chance(Dk k, double p);             // false is the simplest choice
    inline u64 range(Dk k, u64 lo, u64 hi) { return lo + decide(k, hi - lo + 1); }

    // ---- fault kinds -----------------------------------------------------------------------------------------------
    enum Fault : u8
    {
        F_ShortRead, F_ShortWrite, F_Eintr, F_Eagain, F_Eio, F_Enospc, F_Emfile, F_ConnReset, F_ConnRefused,
        F_AcceptFail, F_SqFull, F_PartialSubmit, F_SubmitEintr, F_CqOverflow, F_InitFail, F_SyscallFail, F_Delay,
        F_Reorder, F_ThreadStall, F_SpuriousCas, F_SpuriousWake, F_ClockJump, F_Crash, F_TornWrite, F_LostWrite,
        F_BitFlip, F_Truncate, F_AllocFail, F_PeerClose, F_PeerSlow, F_Fragment, F_SpliceShort, F_TimerLate, F_Cancel, F_StaleRead,
        F_FsyncFail, F_CloseFail, F_SubmitFatal, F_SockEintr, F_StatFail,
        FaultCount
    };
    SIM_API const char* fault_name(Fault f);
    SIM_API void set_fault(Fault f, double p);       // per-run probability of this fault at each opportunity (0: off)
    SIM_API double fault_rate(Fault f);
    SIM_API bool fault(Fault f);                     // shall it fire here? counts it
    SIM_API void count_fault(Fault f);
    SIM_API void faults_enabled(bool on);            // global switch ("faults stop now")
    SIM_API bool faults_on();

    // ---- time, scheduling ------------------------------------------------------------------------------------------
    SIM_API u64 now();                               // virtual monotonic clock, ns
    SIM_API i64 wall_offset();
    SIM_API void jump_wall_clock(i64 delta_ns);
    SIM_API u64 mono_base();
    SIM_API void restart_monotonic_clock(u64 at);   // as a reboot does; now() goes on
    SIM_API u64 steps();                             // global event sequence number
    SIM_API int fid();                               // current simulated thread
    SIM_API void sched_point(u32 kind);
    SIM_API void sleep_ns(u64 ns);                   // simulated sleep of the calling thread
    // Waits until nothing can run and no event is due within `horizon` ns. Only one thread at a time may do this.
    SIM_API void settle(u64 horizon_ns);
    SIM_API void at(u64 time_ns, void (*fn)(void*), void* arg);   // kernel-side event

    // ---- verdicts --------------------------------------------------------------------------------------------------
    [[noreturn]] SIM_API void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    [[noreturn]] SIM_API void sim_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
    SIM_API void tracef(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
    SIM_API bool tracing();
    SIM_API void probe(const char* name);            // "this rare condition was reached"
    SIM_API void note_nontrivial();                  // the run did what its property needs
    SIM_API void hash_event(u64 x);                  // mix into the run hash
    [[noreturn]] SIM_API void finish_run();          // end the run successfully, right now

    // ---- quiet sections: oracle code; no scheduling, no race detection ----------------------------------------------
    SIM_API void quiet_enter();
    SIM_API void quiet_leave();
    struct Quiet
    {
        Quiet() { quiet_enter(); }
        ~Quiet() { quiet_leave(); }
        Quiet(const Quiet&) = delete;
    };

    // ---- scheduler policy of this run -------------------------------------------------------------------------------
    struct Policy
    {
        int mode = 0;            // 0 random preemption, 1 PCT priorities, 2 run to block
        double preempt = 0.05;   // mode 0: probability of a preemption at a scheduling point
        int pct_depth = 3;       // mode 1
        u64 pct_len = 5000;      // mode 1: expected number of scheduling points
        u64 max_steps = 3'000'000;
        u64 max_time = 3600ull * 1000000000ull * 24;
        u64 ns_per_step = 20;
    };
    SIM_API Policy& policy();
    SIM_API void swarm_policy();                     // draws a policy for this run (Conf stream)

    // ---- memory ----------------------------------------------------------------------------------------------------
    SIM_API bool addressable(const void* p, size_t n);
    SIM_API u64 live_blocks();                       // heap blocks allocated by simulated code and not freed
    SIM_API u64 live_bytes();
    SIM_API void alloc_fail_scope(bool on);          // allow F_AllocFail in the calling thread
    SIM_API void race_detection(bool on);
    SIM_API bool is_freed(const void* p);

    // ---- memory-model options --------------------------------------------------------------------------------------
    SIM_API void weak_memory(bool on);

    // ---- threads ---------------------------------------------------------------------------------------------------
    SIM_API int thread_count();
    SIM_API void kill_all_but_me();                  // process crash: all other threads cease to exist
    SIM_API void restore_globals();                  // static state of the program back to program start

    // ---- simulated kernel (kernel.cpp) -------------------------------------------------------------------------------
    struct OpRec
    {
        u64 seq;        // submission sequence
        int ring;
        u64 user_data;
        int opcode;
        int fd;
        u64 obj;        // id of the kernel object
        u64 addr;
        u64 len;
        u64 off;
        i64 res;
        u64 t_submit, t_exec, t_done;
        int state;      // 0 in flight, 1 executed, 2 completion posted
    };
    struct KernelKnobs
    {
        u64 min_delay = 200, max_delay = 20000;        // op latency, ns
        double slow_prob = 0.02;                       // long tail
        u64 slow_delay = 3'000'000;
        double inline_prob = 0.3;                      // completes during submission
        u64 net_delay = 5000;
        size_t sock_buf = 65536;
        u32 max_sq = 0, max_cq = 0;                    // clamp ring sizes (0: as asked)
        u64 timer_slack = 50000;                       // maximal lateness of a kernel timer
        int ncpu = 4;
        const char* release = "6.8.0";
    };
    SIM_API KernelKnobs& knobs();
    SIM_API void swarm_kernel();
    SIM_API size_t op_log_size();
    SIM_API const OpRec& op_log(size_t i);
    SIM_API int last_errno();                         // of the calling thread's last failing system call
    SIM_API u64 inflight_ops(int opcode = -1);
    SIM_API int open_fds();                           // simulated descriptors currently open
    SIM_API const char* fd_desc(int fd);              // "" if closed
    SIM_API u64 fd_object(int fd);                    // unique id of the object behind fd, 0 if closed
    SIM_API void kernel_reset();                      // process crash: all descriptors and rings vanish
    SIM_API void set_bad_close_check(bool on);        // closing an fd that is not open is a violation
    SIM_API u64 bad_closes();
    SIM_API void set_bad_fd_check(bool on);           // submitting an operation on an fd that is not open is a violation
    SIM_API u64 unlinks();                            // files unlinked so far

    // peers: the other end of simulated connections, driven by scenario threads
    SIM_API int peer_connect(u16 port);               // returns a peer handle (>=0) or -errno; blocks in simulated time
    SIM_API int peer_listen(u16 port);
    SIM_API int peer_accept(int lh);
    SIM_API long peer_send(int h, const void* p, size_t n);          // all of it, fragmented; -errno on reset
    SIM_API long peer_recv(int h, void* p, size_t n, u64 timeout_ns); // 0: eof, -EAGAIN timeout, -ECONNRESET
    SIM_API void peer_close(int h);                   // orderly
    SIM_API void peer_shutdown_write(int h);
    SIM_API void peer_reset(int h);                   // RST
    SIM_API u16 peer_local_port(int h);

    // kernel TLS on a connected socket: the stream is encrypted and may carry records that are not data (plain reads fail with EIO there)
    SIM_API void sock_ktls(int fd, bool tx, bool rx);
    SIM_API int sock_send_control(int fd, int code);  // 0 or -errno
    SIM_API int sock_recv_control(int fd);            // code, 0 at the end of the stream, -EBADMSG if data comes first, -errno

    // disk
    SIM_API const char* disk_root();                  // scratch directory of this run (current directory)
    SIM_API void disk_crash();                        // apply the durability model: what survives a power failure
    SIM_API void disk_sync_all();                     // everything so far is durable
    SIM_API void disk_flip(const char* path, u64 off, u8 mask);
    SIM_API void disk_truncate(const char* path, u64 len);
    SIM_API void disk_faults_on_path(const char* substr);   // restrict disk faults to matching paths ("" all)

    // scenarios
    struct Scenario
    {
        const char* name;
        void (*fn)();
        Scenario* next;
    };
    SIM_API void register_scenario(Scenario* s);
}  // namespace sim

#define SIM_SCENARIO(id)                                                              \
    static void scenario_##id();                                                      \
    static ::sim::Scenario scenario_obj_##id{#id, scenario_##id, nullptr};            \
    __attribute__((constructor)) static void scenario_reg_##id() { ::sim::register_scenario(&scenario_obj_##id); } \
    static void scenario_##id()

#define SIM_CHECK(cond, cls, ...)                          \
    do                                                     \
    {                                                      \
        if (!(cond)) ::sim::violation(cls, __VA_ARGS__);   \
    } while (0)
