// Explores seeds, gates and minimises violations, replays.
#include <sys/time.h>
#include "int.h"

#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <dirent.h>
#include <set>

namespace sim
{
    constexpr u64 kSchedSet = 1u << 21;
    struct Shared
    {
        u64 next, done, errors, timeouts, det_checks;
        u64 steps, vtime_us, switches, accesses, kops, nontrivial, stale;
        u64 faults[FaultCount];
        u64 fault_runs[FaultCount];
        u32 lock;
        u32 nprobe;
        u32 nviol;
        u32 stop;
        struct
        {
            char name[56];
            u64 n, runs;
        } probes[256];
        struct
        {
            char sig[320];
            u64 seed, count;
            char msg[2048];
            char cls[160];
        } viol[64];
        char err[2048];
        u64 distinct_sched, distinct_nontrivial;
        u64 samples[16];
        u32 nsamples;
        u64 sched[kSchedSet];
        u64 nset[kSchedSet];
    };
    static Shared* g_sh;
    static std::string g_scratch_base;
    static double g_run_timeout = 40;

    static double mono()
    {
        timespec ts;
        syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
        return double(ts.tv_sec) + double(ts.tv_nsec) / 1e9;
    }
    static void lock()
    {
        while (__atomic_exchange_n(&g_sh->lock, 1, __ATOMIC_ACQUIRE)) syscall(SYS_sched_yield);
    }
    static void unlock() { __atomic_store_n(&g_sh->lock, 0, __ATOMIC_RELEASE); }
    static bool set_insert(u64* t, u64 v)
    {
        if (!v) v = 1;
        for (u64 i = v * 0x9e3779b97f4a7c15ull >> 43, k = 0; k < 64; ++k, i = (i + 1) & (kSchedSet - 1))
        {
            u64 cur = __atomic_load_n(&t[i], __ATOMIC_RELAXED);
            if (cur == v) return false;
            if (cur == 0)
            {
                u64 z = 0;
                if (__atomic_compare_exchange_n(&t[i], &z, v, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return true;
                if (z == v) return false;
            }
        }
        return false;
    }
    static void rm_rf(const std::string& d)
    {
        DIR* dp = opendir(d.c_str());
        if (!dp) return;
        std::vector<std::string> names;
        while (dirent* e = readdir(dp))
            if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name);
        closedir(dp);
        for (auto& n: names)
        {
            const std::string p = d + "/" + n;
            struct stat st;
            if (syscall(SYS_newfstatat, AT_FDCWD, p.c_str(), &st, AT_SYMLINK_NOFOLLOW)) continue;
            if (S_ISDIR(st.st_mode))
            {
                rm_rf(p);
                syscall(SYS_rmdir, p.c_str());
            }
            else
                syscall(SYS_unlink, p.c_str());
        }
    }

    static RunResult* new_result()
    {
        void* p = mmap(nullptr, sizeof(RunResult), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        return (RunResult*)p;
    }
    static volatile sig_atomic_t g_alarmed;
    static pid_t g_child;
    static void on_alarm(int)
    {
        g_alarmed = 1;
        if (g_child > 0) syscall(SYS_kill, g_child, SIGKILL);
    }
    // runs one simulation in a forked child
    static void run_once(const RunInput& in, RunResult* res, int worker)
    {
        memset(res, 0, offsetof(RunResult, dec));
        char dir[256];
        snprintf(dir, sizeof dir, "%s/w%02d", g_scratch_base.c_str(), worker);
        syscall(SYS_mkdir, dir, 0755);
        g_alarmed = 0;
        const pid_t pid = fork();
        if (pid == 0)
        {
            if (syscall(SYS_chdir, dir)) _exit(97);
            signal(SIGALRM, SIG_DFL);
            RunInput i2 = in;
            i2.scratch = dir;
            run_child(i2, res);
        }
        g_child = pid;
        itimerval it{};
        it.it_value.tv_sec = time_t(g_run_timeout);
        it.it_value.tv_usec = 0;
        setitimer(ITIMER_REAL, &it, nullptr);
        int st;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        it.it_value.tv_sec = 0;
        setitimer(ITIMER_REAL, &it, nullptr);
        g_child = 0;
        if (res->status == S_Running)
        {
            if (g_alarmed)
            {
                res->status = S_Violation;
                strcpy(res->cls, "no-progress:wall");
                snprintf(res->msg, sizeof res->msg, "the run did not end within %.0f s of real time", g_run_timeout);
                __atomic_add_fetch(&g_sh->timeouts, 1, __ATOMIC_RELAXED);
            }
            else
            {
                res->status = S_SimError;
                strcpy(res->cls, "sim-error");
                snprintf(res->msg, sizeof res->msg, "child died: wait status %x", st);
            }
        }
        rm_rf(dir);
    }

    static u64 mix(u64 x)
    {
        x += 0x9e3779b97f4a7c15ull;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
        return x ^ (x >> 31);
    }
    static u64 seed_of(const char* scen, u64 base, u64 idx)
    {
        u64 h = 1469598103934665603ull;
        for (const char* p = scen; *p; ++p) h = (h ^ u64(u8(*p))) * 1099511628211ull;
        return mix(mix(h ^ mix(base)) + idx);
    }
    // violation signature: class plus the code addresses in the message
    static std::string sig_of(const RunResult* r)
    {
        std::string s = r->cls;
        const char* p = r->msg;
        while ((p = strstr(p, "pc=")))
        {
            p += 3;
            s += " ";
            while (*p && *p != ' ' && *p != ')' && *p != ',') s += *p++;
        }
        return s;
    }

    static void set_error(const char* fmt, ...)
    {
        lock();
        if (!g_sh->err[0])
        {
            va_list ap;
            va_start(ap, fmt);
            vsnprintf(g_sh->err, sizeof g_sh->err, fmt, ap);
            va_end(ap);
        }
        g_sh->errors++;
        unlock();
    }

    static void account(const RunResult* r, u64 seed, u64 base_seed)
    {
        (void)base_seed;
        auto add = [](u64& a, u64 b) { __atomic_add_fetch(&a, b, __ATOMIC_RELAXED); };
        add(g_sh->steps, r->steps);
        add(g_sh->vtime_us, r->vtime / 1000);
        add(g_sh->switches, r->switches);
        add(g_sh->accesses, r->accesses);
        add(g_sh->kops, r->kops);
        add(g_sh->stale, r->stale_reads);
        for (int i = 0; i < FaultCount; ++i)
            if (r->faults[i])
            {
                add(g_sh->faults[i], r->faults[i]);
                add(g_sh->fault_runs[i], 1);
            }
        if (set_insert(g_sh->sched, r->sched_hash)) add(g_sh->distinct_sched, 1);
        if (r->nontrivial)
        {
            add(g_sh->nontrivial, 1);
            if (set_insert(g_sh->nset, r->hash)) add(g_sh->distinct_nontrivial, 1);
        }
        lock();
        for (u32 i = 0; i < r->nprobe; ++i)
        {
            u32 k = 0;
            while (k < g_sh->nprobe && strcmp(g_sh->probes[k].name, r->probes[i].name)) ++k;
            if (k == g_sh->nprobe)
            {
                if (k >= 256) continue;
                g_sh->nprobe++;
                strcpy(g_sh->probes[k].name, r->probes[i].name);
            }
            g_sh->probes[k].n += r->probes[i].n;
            g_sh->probes[k].runs++;
        }
        if (r->nontrivial && g_sh->nsamples < 16) g_sh->samples[g_sh->nsamples++] = seed;
        if (r->status == S_Violation)
        {
            const std::string s = sig_of(r);
            u32 k = 0;
            while (k < g_sh->nviol && strncmp(g_sh->viol[k].sig, s.c_str(), sizeof g_sh->viol[k].sig - 1)) ++k;
            if (k < 64)
            {
                if (k == g_sh->nviol)
                {
                    g_sh->nviol++;
                    strncpy(g_sh->viol[k].sig, s.c_str(), sizeof g_sh->viol[k].sig - 1);
                    g_sh->viol[k].seed = seed;
                    strncpy(g_sh->viol[k].msg, r->msg, sizeof g_sh->viol[k].msg - 1);
                    strcpy(g_sh->viol[k].cls, r->cls);
                }
                g_sh->viol[k].count++;
            }
        }
        unlock();
    }

    static std::vector<std::string> ignored;   // classes that do not count towards --max-viol
    static void worker_main(int w, Scenario* sc, u64 base, u64 runs, double deadline, u32 det_every, u32 max_viol)
    {
        RunResult *r = new_result(), *r2 = new_result();
        for (;;)
        {
            if (mono() > deadline || g_sh->stop) break;
            const u64 idx = __atomic_fetch_add(&g_sh->next, 1, __ATOMIC_RELAXED);
            if (idx >= runs) break;
            RunInput in;
            in.seed = seed_of(sc->name, base, idx);
            in.scen = sc;
            run_once(in, r, w);
            __atomic_add_fetch(&g_sh->done, 1, __ATOMIC_RELAXED);
            if (r->status == S_SimError)
            {
                set_error("seed %llu: %s", (unsigned long long)in.seed, r->msg);
                g_sh->stop = 1;
                break;
            }
            if (det_every && idx % det_every == 0 && strcmp(r->cls, "no-progress:wall"))
            {
                run_once(in, r2, w);
                __atomic_add_fetch(&g_sh->det_checks, 1, __ATOMIC_RELAXED);
                if (r2->hash != r->hash || r2->status != r->status || strcmp(r->cls, r2->cls))
                {
                    set_error("not deterministic: seed %llu gave %llx/%s/%llu and %llx/%s/%llu", (unsigned long long)in.seed, (unsigned long long)r->hash, r->cls, (unsigned long long)r->steps, (unsigned long long)r2->hash, r2->cls,
                              (unsigned long long)r2->steps);
                    g_sh->stop = 1;
                    break;
                }
            }
            account(r, in.seed, base);
            if (r->status == S_Violation)
            {
                u32 n = 0;
                for (u32 k = 0; k < g_sh->nviol; ++k)
                    if (std::find(ignored.begin(), ignored.end(), g_sh->viol[k].cls) == ignored.end()) ++n;
                if (n >= max_viol) g_sh->stop = 1;
            }
        }
        _exit(0);
    }

    static std::string jesc(const char* s)
    {
        std::string o;
        for (; *s; ++s)
        {
            const unsigned char c = (unsigned char)*s;
            if (c == '"' || c == '\\')
            {
                o += '\\';
                o += char(c);
            }
            else if (c < 32 || c > 126)
            {
                char b[8];
                snprintf(b, sizeof b, "\\u%04x", c);
                o += b;
            }
            else
                o += char(c);
        }
        return o;
    }

    // ---- replay files: plain text
    static bool write_replay(const std::string& path, const char* scen, u64 seed, const char* cls, const char* msg, const std::vector<Dec>& d, size_t orig)
    {
        FILE* f = fopen(path.c_str(), "w");
        if (!f) return false;
        fprintf(f, "replay 1\nscenario %s\nseed %llu\nclass %s\nmessage %s\ndecisions-before-minimisation %zu\ndecisions %zu\n", scen, (unsigned long long)seed, cls, msg, orig, d.size());
        static const char* kn[] = {"work", "env", "sched", "conf"};
        for (const Dec& x: d)
            fprintf(f, "%s T%u %llu %llu\n", kn[(x.key >> 60) & 3], unsigned((x.key >> 48) & 0xfff), (unsigned long long)(x.key & 0xffffffffffffull), (unsigned long long)x.val);
        fclose(f);
        return true;
    }
    static bool read_replay(const char* path, std::string& scen, u64& seed, std::string& cls, std::vector<Dec>& d)
    {
        FILE* f = fopen(path, "r");
        if (!f) return false;
        static char line[16384];
        bool dec = false;
        while (fgets(line, sizeof line, f))
        {
            size_t n = strlen(line);
            while (n && (line[n - 1] == '\n' || line[n - 1] == '\r')) line[--n] = 0;
            if (!dec)
            {
                if (!strncmp(line, "scenario ", 9)) scen = line + 9;
                if (!strncmp(line, "seed ", 5)) seed = strtoull(line + 5, nullptr, 10);
                if (!strncmp(line, "class ", 6)) cls = line + 6;
                if (!strncmp(line, "decisions ", 10)) dec = true;
                continue;
            }
            char k[16];
            unsigned t;
            unsigned long long idx, val;
            if (sscanf(line, "%15s T%u %llu %llu", k, &t, &idx, &val) != 4) continue;
            const int kk = !strcmp(k, "work") ? 0 : !strcmp(k, "env") ? 1 : !strcmp(k, "sched") ? 2 : 3;
            d.push_back({dec_key(Dk(kk), int(t), idx), val});
        }
        fclose(f);
        return dec;
    }

    struct Gate
    {
        bool ok = false;
        std::string err;
        std::vector<Dec> min;
        size_t orig = 0;
        std::string cls, msg;
        int tests = 0;
    };
    static bool reproduces(Scenario* sc, u64 seed, const std::vector<Dec>& d, RunResult* r, const std::string& cls, int worker)
    {
        RunInput in;
        in.seed = seed;
        in.scen = sc;
        in.replay = true;
        in.dec = d.data();
        in.ndec = d.size();
        run_once(in, r, worker);
        return r->status == S_Violation && cls == r->cls;
    }
    static Gate gate(Scenario* sc, u64 seed, double budget, int worker)
    {
        Gate g;
        RunResult *a = new_result(), *b = new_result();
        RunInput in;
        in.seed = seed;
        in.scen = sc;
        run_once(in, a, worker);
        run_once(in, b, worker);
        if (a->status != S_Violation || b->status != S_Violation || strcmp(a->cls, b->cls))
        {
            g.err = "violation did not repeat";
            return g;
        }
        g.cls = a->cls;
        g.msg = a->msg;
        if (g.cls == "no-progress:wall")
        {
            g.ok = true;
            return g;
        }
        if (a->hash != b->hash)
        {
            g.err = "two runs of one seed differ";
            return g;
        }
        std::vector<Dec> d(a->dec, a->dec + a->ndec);
        g.orig = d.size();
        if (a->dec_overflow)
        {
            g.err = "too many decisions to record";
            return g;
        }
        if (!reproduces(sc, seed, d, b, g.cls, worker))
        {
            g.err = std::string("replay of the recorded decisions does not reproduce: ") + (b->status == S_Violation ? b->cls : b->status == S_Ok ? "run ended normally" : b->msg);
            return g;
        }
        if (b->hash != a->hash) g.err = "";  // accepted: same violation
        const double t0 = mono();
        auto left = [&] { return mono() - t0 < budget; };
        // first drop whole classes of decisions, then ddmin
        for (int kind: {2, 1, 0, 3})
        {
            std::vector<Dec> t;
            for (auto& x: d)
                if (int(x.key >> 60) != kind) t.push_back(x);
            if (t.size() == d.size() || !left()) continue;
            g.tests++;
            if (reproduces(sc, seed, t, b, g.cls, worker)) d.assign(b->dec, b->dec + b->ndec);
        }
        size_t n = 2;
        while (d.size() >= 1 && left())
        {
            bool shrunk = false;
            const size_t chunk = (d.size() + n - 1) / n;
            for (size_t s = 0; s < d.size() && left(); s += chunk)
            {
                std::vector<Dec> t(d.begin(), d.begin() + long(s));
                t.insert(t.end(), d.begin() + long(std::min(d.size(), s + chunk)), d.end());
                g.tests++;
                if (reproduces(sc, seed, t, b, g.cls, worker))
                {
                    // what was really used
                    std::vector<Dec> used(b->dec, b->dec + b->ndec);
                    d = used.size() <= t.size() ? used : t;
                    g.msg = b->msg;
                    shrunk = true;
                    n = std::max<size_t>(2, n - 1);
                    break;
                }
            }
            if (!shrunk)
            {
                if (chunk <= 1) break;
                n = std::min(d.size(), n * 2);
            }
        }
        // smaller values
        for (size_t i = 0; i < d.size() && left(); ++i)
        {
            if ((d[i].key >> 60) == Sched || d[i].val <= 1) continue;
            for (u64 v: {u64(1), d[i].val / 2})
            {
                if (v == d[i].val || !v) continue;
                std::vector<Dec> t = d;
                t[i].val = v;
                g.tests++;
                if (reproduces(sc, seed, t, b, g.cls, worker))
                {
                    d = t;
                    break;
                }
            }
        }
        if (!reproduces(sc, seed, d, b, g.cls, worker))
        {
            g.err = "minimised schedule does not reproduce";
            return g;
        }
        g.msg = b->msg;
        g.min = d;
        g.ok = true;
        return g;
    }

    static void setup_fds()
    {
        rlimit rl;
        getrlimit(RLIMIT_NOFILE, &rl);
        if (rl.rlim_cur < 1024)
        {
            rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, 4096);
            setrlimit(RLIMIT_NOFILE, &rl);
        }
        for (;;)
        {
            const long fd = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR | O_CLOEXEC, 0);
            if (fd < 0)
            {
                fprintf(stderr, "simulator: cannot reserve descriptors\n");
                exit(2);
            }
            if (fd >= 511) break;
        }
    }
    static void cleanup()
    {
        rm_rf(g_scratch_base);
        syscall(SYS_rmdir, g_scratch_base.c_str());
    }

    SIM_API int sim_main(int argc, char** argv)
    {
        if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE))
        {
            if (personality(ADDR_NO_RANDOMIZE) < 0)
            {
                perror("personality");
                return 2;
            }
            setenv("LC_ALL", "C", 1);
            execv("/proc/self/exe", argv);
            perror("execv");
            return 2;
        }
        std::string scen, out, replay, trace, replay_dir = ".";
        u64 base = 1, runs = 1000, one = 0;
        double limit = 30, min_budget = 20;
        int jobs = 8;
        u32 det_every = 100, max_viol = 8;
        bool has_one = false, has_gate = false;
        u64 gate_seed = 0;
        for (int i = 1; i < argc; ++i)
        {
            const std::string a = argv[i];
            auto val = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
            if (a == "--list")
            {
                for (Scenario* s = scenarios(); s; s = s->next) printf("%s\n", s->name);
                return 0;
            }
            if (a == "--scenario") scen = val();
            else if (a == "--runs") runs = strtoull(val(), nullptr, 10);
            else if (a == "--seed") base = strtoull(val(), nullptr, 10);
            else if (a == "--time") limit = atof(val());
            else if (a == "--jobs") jobs = atoi(val());
            else if (a == "--out") out = val();
            else if (a == "--replay") replay = val();
            else if (a == "--trace") trace = val();
            else if (a == "--replay-dir") replay_dir = val();
            else if (a == "--det-every") det_every = u32(atoi(val()));
            else if (a == "--max-viol") max_viol = u32(atoi(val()));
            else if (a == "--min-budget") min_budget = atof(val());
            else if (a == "--run-timeout") g_run_timeout = atof(val());
            else if (a == "--ignore") ignored.push_back(val());
            else if (a == "--gate")
            {
                gate_seed = strtoull(val(), nullptr, 10);
                has_gate = true;
            }
            else if (a == "--one")
            {
                one = strtoull(val(), nullptr, 10);
                has_one = true;
            }
            else
            {
                fprintf(stderr, "unknown argument %s\n", a.c_str());
                return 2;
            }
        }
        std::vector<Dec> rdec;
        std::string rcls;
        u64 rseed = 0;
        if (!replay.empty())
        {
            if (!read_replay(replay.c_str(), scen, rseed, rcls, rdec))
            {
                fprintf(stderr, "cannot read %s\n", replay.c_str());
                return 2;
            }
        }
        Scenario* sc = scenarios();
        while (sc && scen != sc->name) sc = sc->next;
        if (!sc)
        {
            fprintf(stderr, "no scenario %s\n", scen.c_str());
            return 2;
        }
        setup_fds();
        int trace_fd = -1;
        if (!trace.empty())
        {
            trace_fd = int(syscall(SYS_openat, AT_FDCWD, trace.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0644));
            if (trace_fd < 0) perror("trace");
        }
        char base_dir[64];
        snprintf(base_dir, sizeof base_dir, "/dev/shm/ksim%08x", unsigned(syscall(SYS_getpid)));
        g_scratch_base = base_dir;
        syscall(SYS_mkdir, base_dir, 0755);
        struct sigaction sa{};
        sa.sa_handler = on_alarm;
        sigaction(SIGALRM, &sa, nullptr);
        g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        mem_init_process();
        fflush(stdout);
        const int real_out = int(syscall(SYS_dup, 1));
        const int nul = int(syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR, 0));
        FILE* say = fdopen(real_out, "w");
        if (!getenv("SIM_STDOUT"))
        {
            syscall(SYS_dup2, nul, 1);
            if (!getenv("SIM_STDERR")) syscall(SYS_dup2, nul, 2);
        }
        snapshot_globals();

        if (!replay.empty() || has_one)
        {
            RunResult* r = new_result();
            RunInput in;
            in.scen = sc;
            in.seed = has_one ? one : rseed;
            in.replay = !has_one;
            in.dec = rdec.data();
            in.ndec = rdec.size();
            in.trace_fd = trace_fd;
            run_once(in, r, 0);
            fprintf(say, "status %s\nclass %s\nmessage %s\nhash %llx\nsteps %llu\nvtime_us %llu\nswitches %llu\ndecisions %llu\nnontrivial %u\n", r->status == S_Ok ? "ok" : r->status == S_Violation ? "violation" : "error", r->cls, r->msg,
                    (unsigned long long)r->hash, (unsigned long long)r->steps, (unsigned long long)(r->vtime / 1000), (unsigned long long)r->switches, (unsigned long long)r->ndec, r->nontrivial);
            for (u32 i = 0; i < r->nprobe; ++i) fprintf(say, "probe %s %llu\n", r->probes[i].name, (unsigned long long)r->probes[i].n);
            for (int i = 0; i < FaultCount; ++i)
                if (r->faults[i]) fprintf(say, "fault %s %llu\n", fault_name(Fault(i)), (unsigned long long)r->faults[i]);
            fflush(say);
            cleanup();
            if (!replay.empty()) return r->status == S_Violation && rcls == r->cls ? 1 : r->status == S_SimError ? 2 : r->status == S_Violation ? 4 : 0;
            return int(r->status == S_Ok ? 0 : r->status == S_Violation ? 1 : 2);
        }

        if (has_gate)
        {
            Gate g = gate(sc, gate_seed, min_budget, 90);
            const std::string path = replay_dir + "/" + scen + "-" + std::to_string(gate_seed) + ".replay";
            if (g.ok)
            {
                write_replay(path, sc->name, gate_seed, g.cls.c_str(), g.msg.c_str(), g.min, g.orig);
                if (g.cls != "no-progress:wall")
                {
                    // a fresh process must reproduce it
                    fflush(nullptr);
                    const pid_t p = fork();
                    if (p == 0)
                    {
                        const char* av[] = {argv[0], "--replay", path.c_str(), nullptr};
                        execv("/proc/self/exe", (char**)av);
                        _exit(9);
                    }
                    int st;
                    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
                    if (!WIFEXITED(st) || WEXITSTATUS(st) != 1)
                    {
                        g.ok = false;
                        g.err = "a fresh process does not reproduce the replay file";
                    }
                }
            }
            fprintf(say, "{\"class\":\"%s\",\"seed\":\"%llu\",\"message\":\"%s\",\"ok\":%s,\"error\":\"%s\",\"replay\":\"%s\",\"decisions\":%zu,\"minimised\":%zu,\"tests\":%d}\n", jesc(g.cls.c_str()).c_str(), (unsigned long long)gate_seed,
                    jesc(g.msg.c_str()).c_str(), g.ok ? "true" : "false", jesc(g.err.c_str()).c_str(), jesc(path.c_str()).c_str(), g.orig, g.min.size(), g.tests);
            fflush(say);
            cleanup();
            return g.ok ? 1 : 2;
        }

        const double t0 = mono();
        std::vector<pid_t> pids;
        for (int w = 0; w < jobs; ++w)
        {
            const pid_t p = fork();
            if (p == 0) worker_main(w, sc, base, runs, t0 + limit, det_every, max_viol);
            pids.push_back(p);
        }
        for (pid_t p: pids)
        {
            int st;
            while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        }
        const double wall = mono() - t0;
        std::string viols;
        int rc = 0;
        for (u32 k = 0; k < g_sh->nviol; ++k)
        {
            auto& v = g_sh->viol[k];
            viols += (viols.empty() ? "{\"sig\":\"" : ",{\"sig\":\"") + jesc(v.sig) + "\",\"class\":\"" + jesc(v.cls) + "\",\"seed\":\"" + std::to_string(v.seed) + "\",\"count\":" + std::to_string(v.count) + ",\"message\":\"" + jesc(v.msg) + "\"}";
            rc = 1;
        }
        if (g_sh->err[0]) rc = 2;
        FILE* o = out.empty() ? say : fopen(out.c_str(), "w");
        fprintf(o,
                "{\"scenario\":\"%s\",\"seed\":%llu,\"runs\":%llu,\"planned\":%llu,\"wall_s\":%.3f,\"jobs\":%d,\"steps\":%llu,\"sim_us\":%llu,\"switches\":%llu,\"accesses\":%llu,\"io_ops\":%llu,"
                "\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,\"distinct_schedules\":%llu,\"determinism_checks\":%llu,\"timeouts\":%llu,\"stale_reads\":%llu,\"error\":\"%s\",\n\"faults\":{",
                jesc(sc->name).c_str(), (unsigned long long)base, (unsigned long long)g_sh->done, (unsigned long long)runs, wall, jobs, (unsigned long long)g_sh->steps, (unsigned long long)g_sh->vtime_us, (unsigned long long)g_sh->switches,
                (unsigned long long)g_sh->accesses, (unsigned long long)g_sh->kops, (unsigned long long)g_sh->nontrivial, (unsigned long long)g_sh->distinct_nontrivial, (unsigned long long)g_sh->distinct_sched,
                (unsigned long long)g_sh->det_checks, (unsigned long long)g_sh->timeouts, (unsigned long long)g_sh->stale, jesc(g_sh->err).c_str());
        bool first = true;
        for (int i = 0; i < FaultCount; ++i)
            if (g_sh->faults[i])
            {
                fprintf(o, "%s\"%s\":{\"times\":%llu,\"runs\":%llu}", first ? "" : ",", fault_name(Fault(i)), (unsigned long long)g_sh->faults[i], (unsigned long long)g_sh->fault_runs[i]);
                first = false;
            }
        fprintf(o, "},\n\"probes\":{");
        for (u32 i = 0; i < g_sh->nprobe; ++i) fprintf(o, "%s\"%s\":{\"times\":%llu,\"runs\":%llu}", i ? "," : "", jesc(g_sh->probes[i].name).c_str(), (unsigned long long)g_sh->probes[i].n, (unsigned long long)g_sh->probes[i].runs);
        fprintf(o, "},\n\"samples\":[");
        for (u32 i = 0; i < g_sh->nsamples; ++i) fprintf(o, "%s\"%llu\"", i ? "," : "", (unsigned long long)g_sh->samples[i]);
        fprintf(o, "],\n\"violations\":[%s]}\n", viols.c_str());
        if (o != say) fclose(o);
        fflush(say);
        cleanup();
        return rc;
    }
}  // namespace sim
