// Heap with use-after-free detection, happens-before race detector, and the ThreadSanitizer instrumentation callbacks
// (the real tsan runtime is not linked): every instrumented atomic operation is a scheduling point.
#include "int.h"

#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <link.h>
#include <new>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" char __libc_single_threaded;

namespace sim
{
    // ---- address space layout ------------------------------------------------------------------------------------
    static char* const kRun = (char*)0x100000000000ull;     // heap and stacks of the current run
    constexpr size_t kRunSize = 2ull << 30;
    static char* const kProc = (char*)0x108000000000ull;    // heap of the parent process / before the run
    constexpr size_t kProcSize = 4ull << 30;
    static u8* const kValid = (u8*)0x110000000000ull;       // 1 byte per 8 of the run region
    struct Cell
    {
        u64 meta;  // 0: empty. mask(8) | write(1) | atomic(1) | fiber(8) | epoch(32) at bit 32
        u64 pc;
    };
    static Cell* const kCells = (Cell*)0x120000000000ull;   // 4 cells per 8 bytes of the run region
    static Cell* const kGCells = (Cell*)0x130000000000ull;  // same for the executable's globals
    constexpr int kCellsPer = 4;
    static char *g_glob_lo = nullptr, *g_glob_hi = nullptr;
    static char* g_snapshot = nullptr;

    static bool g_proc_inited = false;
    static bool g_run_heap = false;
    static char *g_proc_ptr, *g_run_ptr;
    static u64 g_live = 0, g_live_bytes = 0;
    static bool g_race_on = true;
    static bool g_weak = false;

    struct Hdr
    {
        u64 size;
        u32 magic;
        u8 state;     // 1 live, 2 freed
        u8 internal;
        u16 pad;
    };
    static_assert(sizeof(Hdr) == 16);
    constexpr u32 kMagic = 0x5eed600d;
    enum : u8 { V_Ok = 0, V_Red = 0xfa, V_Free = 0xfd };

    static void* map_at(void* at, size_t n)
    {
        void* p = (void*)syscall(SYS_mmap, at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != at)
        {
            static const char m[] = "simulator: cannot map memory\n";
            syscall(SYS_write, 2, m, sizeof m - 1);
            _exit(99);
        }
        return p;
    }
    static void proc_init()
    {
        if (g_proc_inited) return;
        g_proc_inited = true;
        map_at(kProc, kProcSize);
        g_proc_ptr = kProc;
    }
    static int find_exe(dl_phdr_info* info, size_t, void*)
    {
        if (info->dlpi_name && info->dlpi_name[0]) return 0;
        for (int i = 0; i < info->dlpi_phnum; ++i)
        {
            const auto& ph = info->dlpi_phdr[i];
            if (ph.p_type == PT_LOAD && (ph.p_flags & PF_W))
            {
                char* lo = (char*)(info->dlpi_addr + ph.p_vaddr);
                char* hi = lo + ph.p_memsz;
                if (!g_glob_lo || lo < g_glob_lo) g_glob_lo = lo;
                if (hi > g_glob_hi) g_glob_hi = hi;
            }
        }
        return 1;
    }
    // relro part of the data segment is not writable: find the writable part
    static char *g_wr_lo = nullptr, *g_wr_hi = nullptr;
    static int find_relro(dl_phdr_info* info, size_t, void*)
    {
        if (info->dlpi_name && info->dlpi_name[0]) return 0;
        for (int i = 0; i < info->dlpi_phnum; ++i)
        {
            const auto& ph = info->dlpi_phdr[i];
            if (ph.p_type == PT_GNU_RELRO)
            {
                char* hi = (char*)(info->dlpi_addr + ph.p_vaddr + ph.p_memsz);
                hi = (char*)(((u64)hi + 4095) & ~4095ull);
                if (hi > g_wr_lo) g_wr_lo = hi;
            }
        }
        return 1;
    }

    // called once in the parent, before forking runs
    void mem_init_process()
    {
        proc_init();
        dl_iterate_phdr(find_exe, nullptr);
        g_wr_lo = g_glob_lo;
        dl_iterate_phdr(find_relro, nullptr);
        g_wr_hi = g_glob_hi;
        g_glob_lo = (char*)((u64)g_glob_lo & ~7ull);
        map_at(kRun, kRunSize);
        map_at(kValid, kRunSize / 8);
        map_at(kCells, kRunSize / 8 * kCellsPer * sizeof(Cell));
        const size_t g = (size_t)(g_glob_hi - g_glob_lo + 4096);
        map_at(kGCells, g / 8 * kCellsPer * sizeof(Cell));
        g_run_ptr = kRun + 4096;
        __libc_single_threaded = 0;
    }
    void snapshot_globals()
    {
        const size_t n = (size_t)(g_wr_hi - g_wr_lo);
        g_snapshot = (char*)map_at((void*)0x140000000000ull, (n + 4095) & ~4095ull);
        memcpy(g_snapshot, g_wr_lo, n);
    }
    void restore_globals()
    {
        In in;
        memcpy(g_wr_lo, g_snapshot, (size_t)(g_wr_hi - g_wr_lo));
        const size_t g = (size_t)(g_glob_hi - g_glob_lo + 4096);
        memset((void*)kGCells, 0, g / 8 * kCellsPer * sizeof(Cell));
    }

    struct SyncLoc;
    static std::unordered_map<u64, SyncLoc*>* g_sync = nullptr;
    void mem_start_run()
    {
        g_run_heap = true;
        g_sync = new std::unordered_map<u64, SyncLoc*>();
    }

    static u8 g_stack_of[kRunSize / kStackSize];   // fiber + 1 whose stack lies there (stacks are aligned to their size)
    static inline bool in_run(const void* p) { return (u64)p - (u64)kRun < kRunSize; }
    static inline u8* valid_of(const void* p) { return kValid + (((u64)p - (u64)kRun) >> 3); }

    char* stack_alloc(int fiber)
    {
        char* p = arena_alloc_raw(kStackSize, kStackSize);
        g_stack_of[((u64)p - (u64)kRun) / kStackSize] = u8(fiber + 1);
        return p;
    }
    // Nobody may use the part of a stack whose functions have returned.
    static void check_stack(const void* a, int fiber, u64 pc, const char* what)
    {
        const Fiber& f = g_fibers[fiber];
        if (&f == g_cur)
        {
            if ((u64)a >= (u64)__builtin_frame_address(0)) return;
        }
        else if (f.state == FState::Dead || f.state == FState::Unused || (f.state != FState::Finished && (u64)a >= (u64)f.sp))
            return;
        violation("stack:use-after-return", "%s by T%d of a stack frame of T%d which %s, pc=0x%llx", what, fid(), fiber, f.state == FState::Finished ? "has ended" : "was left", (unsigned long long)pc);
    }
    // n bytes, no header, addressable
    char* arena_alloc_raw(size_t n, size_t align)
    {
        char* p = (char*)(((u64)g_run_ptr + align - 1) & ~(u64)(align - 1));
        g_run_ptr = p + ((n + 15) & ~15ull);
        if (g_run_ptr > kRun + kRunSize) sim_error("arena exhausted");
        return p;
    }

    static void* do_alloc(size_t n, size_t align)
    {
        if (n > 1ull << 40) return nullptr;   // no machine has that much
        if (align < 16) align = 16;
        if (!g_run_heap)
        {
            proc_init();
            char* p = g_proc_ptr + sizeof(Hdr);
            p = (char*)(((u64)p + align - 1) & ~(u64)(align - 1));
            g_proc_ptr = p + ((n + 15) & ~15ull);
            if (g_proc_ptr > kProc + kProcSize) return nullptr;
            *(Hdr*)(p - sizeof(Hdr)) = {n, kMagic, 1, 1, 0};
            return p;
        }
        // header + redzone after
        char* p = g_run_ptr + sizeof(Hdr);
        p = (char*)(((u64)p + align - 1) & ~(u64)(align - 1));
        const size_t padded = ((n + 15) & ~15ull) + 16;
        g_run_ptr = p + padded;
        if (g_run_ptr > kRun + kRunSize)
        {
            if (!g_in) violation("no-progress:memory", "more than %llu MB were allocated", (unsigned long long)(kRunSize >> 20));
            sim_error("arena exhausted");
        }
        *(Hdr*)(p - sizeof(Hdr)) = {n, kMagic, 1, u8(g_in ? 1 : 0), 0};
        if (!g_in)
        {
            ++g_live;
            g_live_bytes += n;
            // redzones: header before, pad after
            memset(valid_of(p - sizeof(Hdr)), V_Red, sizeof(Hdr) / 8);
            u8* v = valid_of(p);
            const size_t full = n / 8, tail = n % 8;
            size_t i = full;
            if (tail) v[i++] = u8(tail);
            for (; i < padded / 8; ++i) v[i] = V_Red;
            // fresh memory is not zero
            if (n <= 65536) memset(p, 0xa5, n);
        }
        return p;
    }

    static void do_free(void* p)
    {
        if (!p) return;
        if (!in_run(p)) return;  // parent's heap: never reused
        Hdr* h = (Hdr*)((char*)p - sizeof(Hdr));
        if (h->magic != kMagic) violation("heap:bad-free", "free of a pointer that was never allocated");
        if (h->state != 1)
        {
            violation("heap:double-free", "block of %llu bytes freed twice (second time in T%d)", (unsigned long long)h->size, fid());
        }
        h->state = 2;
        if (!h->internal)
        {
            --g_live;
            g_live_bytes -= h->size;
            memset(valid_of(p), V_Free, (h->size + 7) / 8);
            if (h->size <= 4096 && h->size) memset(p, 0xdd, h->size);
        }
    }

    u64 live_blocks() { return g_live; }
    u64 live_bytes() { return g_live_bytes; }
    bool is_freed(const void* p) { return in_run(p) && *valid_of(p) == V_Free; }
    void alloc_fail_scope(bool on)
    {
        if (g_cur) g_cur->alloc_fail = on;
    }
    void race_detection(bool on) { g_race_on = on; }
    void weak_memory(bool on) { g_weak = on; }

    static void describe_pc(char* out, size_t n, u64 pc)
    {
        snprintf(out, n, "0x%llx", (unsigned long long)pc);
    }

    [[noreturn]] static void report_invalid(const void* a, size_t n, const char* what, u64 pc)
    {
        const u8 v = *valid_of(a);
        char b[64];
        describe_pc(b, sizeof b, pc);
        // distinguish freed memory from out of bounds
        bool freed = v == V_Free;
        for (size_t i = 0; i < n && !freed; i += 8)
            if (*valid_of((char*)a + i) == V_Free) freed = true;
        violation(freed ? "heap:use-after-free" : "heap:out-of-bounds", "%s of %zu bytes at invalid address by T%d pc=%s", what, n, fid(), b);
    }
    static inline bool ok_small(const void* a, size_t n)
    {
        // within one granule or crossing one boundary
        const u8* v = valid_of(a);
        const u64 off = (u64)a & 7;
        if (v[0] == 0)
        {
            if (off + n <= 8) return true;
        }
        else
        {
            if (v[0] >= 8 || off + n > v[0]) return false;
            return true;
        }
        const u8 v1 = v[1];
        const u64 n1 = off + n - 8;
        if (n1 <= 8) return v1 == 0 || (v1 < 8 && n1 <= v1);
        return v1 == 0 && (v[2] == 0 || (v[2] < 8 && n1 - 8 <= v[2]));
    }
    bool addressable(const void* p, size_t n)
    {
        if (!n) return true;
        if (!in_run(p)) return true;
        const char* a = (const char*)p;
        const char* e = a + n;
        // whole granules
        while (a < e)
        {
            const u8 v = *valid_of(a);
            const size_t off = (u64)a & 7;
            size_t take = 8 - off;
            if (take > size_t(e - a)) take = size_t(e - a);
            if (v && (v >= 8 || off + take > v)) return false;
            a += take;
        }
        return true;
    }
    void kernel_access_check(const void* p, size_t n, const char* what)
    {
        if (!n || !in_run(p)) return;
        if (const u8 o = g_stack_of[((u64)p - (u64)kRun) / kStackSize]) check_stack(p, o - 1, 0, what);
        if (!addressable(p, n))
        {
            const char* a = (const char*)p;
            bool freed = false;
            for (size_t i = 0; i < n && !freed; ++i)
                if (in_run(a + i) && *valid_of(a + i) == V_Free) freed = true;
            violation(freed ? "kernel:use-after-free" : "kernel:out-of-bounds", "the kernel %s %zu bytes of memory the program %s", what, n, freed ? "already freed" : "does not own");
        }
    }

    // ---- happens-before -------------------------------------------------------------------------------------------
    void race_fiber_start(Fiber* c, Fiber* parent)
    {
        c->vc.clear();
        c->view.clear();
        c->rel_fence.clear();
        c->acq_pend.clear();
        c->has_rel_fence = c->has_acq_pend = false;
        if (parent)
        {
            c->vc = parent->vc;
            c->view = parent->view;
            parent->vc.c[parent->id]++;
            parent->view.c[parent->id]++;
        }
        c->vc.c[c->id] = 1;
        c->view.c[c->id] = 1;
    }
    static inline void tick()
    {
        g_cur->vc.c[g_cur->id]++;
        if (g_cur->view.c[g_cur->id] < g_cur->vc.c[g_cur->id]) g_cur->view.c[g_cur->id] = g_cur->vc.c[g_cur->id];
    }
    void hb_release(Clock& to)
    {
        to = g_cur->vc;
        tick();
    }
    void hb_release_join(Clock& to)
    {
        to.join(g_cur->vc);
        tick();
    }
    void hb_acquire(const Clock& from)
    {
        g_cur->vc.join(from);
        if (g_weak) g_cur->view.join(from);
    }

    constexpr int kHist = 8;
    struct Store
    {
        u64 val[2];
        u64 no;       // position in modification order
        u32 fiber, epoch;
        bool has_sync;
        Clock* sync;   // release clock (vc)
        Clock* sview;
    };
    struct SyncLoc
    {
        bool has = false;
        Clock vc;
        Clock view;
        // weak memory
        std::vector<Store>* hist = nullptr;
        u64 next_no = 1;
        u64* seen = nullptr;        // per fiber: newest store number read or written
        u32* first_read = nullptr;  // per fiber: epoch of its first read
        u8* stale_run = nullptr;
        u64 last_store_step = 0;
    };
    static Clock* g_sc_view = nullptr;

    static SyncLoc* loc_of(const volatile void* a)
    {
        SyncLoc*& l = (*g_sync)[(u64)a];
        if (!l)
        {
            l = new SyncLoc;
            l->vc.clear();
            l->view.clear();
        }
        return l;
    }

    void sync_release_at(const void* a, const Clock& c)
    {
        SyncLoc* l = loc_of(a);
        l->vc.join(c);
        if (g_weak) l->view.join(c);
        l->has = true;
    }
    void view_all()
    {
        if (!g_weak) return;
        for (int i = 0; i < g_nfibers; ++i) g_cur->view.join(g_fibers[i].vc);
    }

    enum Mo { mo_relaxed, mo_consume, mo_acquire, mo_release, mo_acq_rel, mo_seq_cst };
    static inline bool is_acq(int mo) { return mo == mo_acquire || mo == mo_consume || mo == mo_acq_rel || mo == mo_seq_cst; }
    static inline bool is_rel(int mo) { return mo == mo_release || mo == mo_acq_rel || mo == mo_seq_cst; }

    static void sc_sync()
    {
        if (!g_weak) return;
        if (!g_sc_view)
        {
            g_sc_view = new Clock;
            g_sc_view->clear();
        }
        g_cur->view.join(g_cur->vc);
        g_cur->view.join(*g_sc_view);
        g_sc_view->join(g_cur->view);
    }

    static void acquire_from(SyncLoc* l, const Clock* vc, const Clock* view, int mo)
    {
        if (is_acq(mo))
        {
            g_cur->vc.join(*vc);
            if (g_weak) g_cur->view.join(*view);
        }
        else
        {
            g_cur->acq_pend.join(*vc);
            if (g_weak) g_cur->acq_view.join(*view);
            g_cur->has_acq_pend = true;
        }
        (void)l;
    }
    static void on_load(SyncLoc* l, int mo)
    {
        if (l->has) acquire_from(l, &l->vc, &l->view, mo);
    }
    static void on_store(SyncLoc* l, int mo)
    {
        if (is_rel(mo))
        {
            l->vc = g_cur->vc;
            if (g_weak) l->view = g_cur->view;
            l->has = true;
        }
        else if (g_cur->has_rel_fence)
        {
            l->vc = g_cur->rel_fence;
            if (g_weak) l->view = g_cur->rel_view;
            l->has = true;
        }
        else
        {
            l->vc.clear();
            l->view.clear();
            l->has = false;
        }
        if (is_rel(mo)) tick();
    }
    static void on_rmw(SyncLoc* l, int mo)
    {
        on_load(l, mo);
        if (is_rel(mo))
        {
            l->vc.join(g_cur->vc);
            if (g_weak) l->view.join(g_cur->view);
            l->has = true;
            tick();
        }
        else if (g_cur->has_rel_fence)
        {
            l->vc.join(g_cur->rel_fence);
            if (g_weak) l->view.join(g_cur->rel_view);
            l->has = true;
        }
    }
    static void on_fence(int mo)
    {
        if (mo == mo_seq_cst) sc_sync();
        if (is_acq(mo) && g_cur->has_acq_pend)
        {
            g_cur->vc.join(g_cur->acq_pend);
            if (g_weak) g_cur->view.join(g_cur->acq_view);
        }
        if (is_rel(mo))
        {
            g_cur->rel_fence = g_cur->vc;
            g_cur->rel_view = g_cur->view;
            g_cur->has_rel_fence = true;
            tick();
        }
    }

    // ---- race detection -----------------------------------------------------------------------------------------------
    static inline Cell* cells_of(const void* a)
    {
        const u64 r = (u64)a - (u64)kRun;
        if (r < kRunSize) return kCells + (r >> 3) * kCellsPer;
        const u64 g = (u64)a - (u64)g_glob_lo;
        if (g < u64(g_glob_hi - g_glob_lo)) return kGCells + (g >> 3) * kCellsPer;
        return nullptr;
    }
    [[noreturn]] static void report_race(u64 cur_meta, u64 pc, const Cell& old, const void* a)
    {
        char b1[64], b2[64];
        describe_pc(b1, sizeof b1, pc);
        describe_pc(b2, sizeof b2, old.pc);
        const bool w1 = cur_meta & 0x100, w2 = old.meta & 0x100, at1 = cur_meta & 0x200, at2 = old.meta & 0x200;
        violation("data-race", "%s%s by T%d pc=%s races with earlier %s%s by T%d pc=%s", at1 ? "atomic " : "", w1 ? "write" : "read", g_cur->id, b1, at2 ? "atomic " : "", w2 ? "write" : "read",
                  int((old.meta >> 16) & 0xff), b2);
        (void)a;
    }
    // one granule
    static inline void race_granule(Cell* c, u8 mask, bool write, bool atomic, u64 pc, const void* a)
    {
        Fiber* f = g_cur;
        const u64 meta = u64(mask) | (write ? 0x100u : 0) | (atomic ? 0x200u : 0) | (u64(f->id) << 16) | (u64(f->vc.c[f->id]) << 32);
        int slot = -1, empty = -1;
        for (int i = 0; i < kCellsPer; ++i)
        {
            const u64 m = c[i].meta;
            if (!m)
            {
                if (empty < 0) empty = i;
                continue;
            }
            const int of = int((m >> 16) & 0xff);
            const u8 om = u8(m);
            if (of == f->id)
            {
                if (om == mask && ((m & 0x300) == (meta & 0x300) || (write && !atomic && (om & ~mask) == 0))) slot = i;
                continue;
            }
            if (!(om & mask)) continue;
            if (!write && !(m & 0x100)) continue;
            if (atomic && (m & 0x200)) continue;
            if (f->vc.c[of] >= u32(m >> 32)) continue;
            report_race(meta, pc, c[i], a);
        }
        if (slot >= 0 || empty >= 0)
        {
            Cell& t = c[slot >= 0 ? slot : empty];
            t.meta = meta;
            t.pc = pc;
            return;
        }
        // evict: first one that happens-before the present access, else rotate by epoch
        int ev = int(f->vc.c[f->id] & 3);
        for (int i = 0; i < kCellsPer; ++i)
        {
            const u64 m = c[i].meta;
            if (f->vc.c[(m >> 16) & 0xff] >= u32(m >> 32) && (write || !(m & 0x100)) && (u8(m) & ~mask) == 0)
            {
                ev = i;
                break;
            }
        }
        c[ev].meta = meta;
        c[ev].pc = pc;
    }
    static void access_range(const void* a, size_t n, bool write, bool atomic, u64 pc)
    {
        if (!n) return;
        if (in_run(a))
        {
            if (n <= 16 ? !ok_small(a, n) : !addressable(a, n)) report_invalid(a, n, write ? "write" : "read", pc);
            if (const u8 o = g_stack_of[((u64)a - (u64)kRun) / kStackSize]) check_stack(a, o - 1, pc, write ? "write" : "read");
        }
        if (!g_race_on) return;
        Cell* c = cells_of(a);
        if (!c) return;
        u64 p = (u64)a;
        size_t left = n;
        while (left)
        {
            const u64 off = p & 7;
            size_t take = 8 - off;
            if (take > left) take = left;
            const u8 mask = u8(((1u << take) - 1) << off);
            race_granule(c, mask, write, atomic, pc, (void*)p);
            p += take;
            left -= take;
            c += kCellsPer;
        }
    }
    static inline void access(const void* a, size_t n, bool write, u64 pc)
    {
        if (g_in || !g_running) return;
        ++g_in;
        if (++g_res->accesses > 400'000'000ull) violation("no-progress", "memory access limit reached in T%d (endless loop)", g_cur->id);
        access_range(a, n, write, false, pc);
        --g_in;
    }

    // ---- weak memory: which store does a load see? -----------------------------------------------------------------------
    template<typename T>
    static void hist_reset(SyncLoc* l, T cur)
    {
        if (!l->hist)
        {
            l->hist = new std::vector<Store>();
            l->seen = new u64[kMaxFibers]();
            l->first_read = new u32[kMaxFibers]();
            l->stale_run = new u8[kMaxFibers]();
        }
        l->hist->clear();
        Store s{};
        memcpy(s.val, &cur, sizeof(T));
        s.no = l->next_no++;
        s.fiber = 0;
        s.epoch = 0;
        s.has_sync = l->has;
        if (l->has)
        {
            s.sync = new Clock(l->vc);
            s.sview = new Clock(l->view);
        }
        l->hist->push_back(s);
    }
    template<typename T>
    static void hist_sync(SyncLoc* l, volatile T* a)
    {
        T cur = *a;
        if (!l->hist || l->hist->empty() || memcmp(l->hist->back().val, &cur, sizeof(T)) != 0) hist_reset<T>(l, cur);
    }
    template<typename T>
    static void hist_push(SyncLoc* l, T v)
    {
        Store s{};
        memcpy(s.val, &v, sizeof(T));
        s.no = l->next_no++;
        s.fiber = u32(g_cur->id);
        s.epoch = g_cur->vc.c[g_cur->id];
        s.has_sync = l->has;
        if (l->has)
        {
            s.sync = new Clock(l->vc);
            s.sview = new Clock(l->view);
        }
        if (l->hist->size() >= kHist) l->hist->erase(l->hist->begin());
        l->hist->push_back(s);
        l->seen[g_cur->id] = s.no;
        l->last_store_step = g_steps;
    }
    template<typename T>
    static T weak_load(SyncLoc* l, volatile T* a, int mo)
    {
        hist_sync<T>(l, a);
        std::vector<Store>& h = *l->hist;
        const int me = g_cur->id;
        size_t pick = h.size() - 1;
        if (mo != mo_seq_cst && h.size() > 1 && g_steps - l->last_store_step < 400 && l->stale_run[me] < 3 && fault_rate(F_StaleRead) > 0)
        {
            u64 min_no = l->seen[me];
            for (int u = 0; u < g_nfibers; ++u)
                if (u != me && l->first_read[u] && (g_cur->vc.c[u] >= l->first_read[u] || g_cur->view.c[u] >= l->first_read[u]) && l->seen[u] > min_no) min_no = l->seen[u];
            size_t lo = h.size() - 1;
            while (lo > 0)
            {
                const Store& s = h[lo];
                if (g_cur->vc.c[s.fiber] >= s.epoch || g_cur->view.c[s.fiber] >= s.epoch) break;  // this one is known: nothing older
                if (s.no <= min_no) break;
                --lo;
            }
            const size_t n = h.size() - lo;
            if (n > 1 && chance(Env, fault_rate(F_StaleRead)))
            {
                const u64 back = 1 + decide(Env, n - 1);
                pick = h.size() - 1 - size_t(back);
                count_fault(F_StaleRead);
                g_res->stale_reads++;
            }
        }
        if (pick == h.size() - 1)
            l->stale_run[me] = 0;
        else
            l->stale_run[me]++;
        const Store& s = h[pick];
        if (s.no > l->seen[me]) l->seen[me] = s.no;
        if (!l->first_read[me]) l->first_read[me] = g_cur->vc.c[me];
        if (s.has_sync && s.sync) acquire_from(l, s.sync, s.sview, mo);
        T v;
        memcpy(&v, s.val, sizeof(T));
        return v;
    }

    // ---- atomic operations -------------------------------------------------------------------------------------------
    static inline void at_access(const volatile void* a, size_t n, bool write, u64 pc) { access_range((const void*)a, n, write, true, pc); }

    template<typename T>
    static T a_load(const volatile T* a, int mo, u64 pc)
    {
        if (g_in || !g_running) return __atomic_load_n(a, __ATOMIC_SEQ_CST);
        sched_point(10);
        In in;
        at_access(a, sizeof(T), false, pc);
        SyncLoc* l = loc_of(a);
        if (mo == mo_seq_cst) sc_sync();
        T v;
        if (g_weak)
            v = weak_load<T>(l, const_cast<volatile T*>(a), mo);
        else
        {
            on_load(l, mo);
            v = *a;
        }
        return v;
    }
    template<typename T>
    static void a_store(volatile T* a, T v, int mo, u64 pc)
    {
        if (g_in || !g_running)
        {
            __atomic_store_n(a, v, __ATOMIC_SEQ_CST);
            return;
        }
        sched_point(11);
        In in;
        at_access(a, sizeof(T), true, pc);
        SyncLoc* l = loc_of(a);
        if (mo == mo_seq_cst) sc_sync();
        if (g_weak) hist_sync<T>(l, a);
        on_store(l, mo);
        *a = v;
        if (g_weak) hist_push<T>(l, v);
    }
    template<typename T, typename F>
    static T a_rmw(volatile T* a, int mo, u64 pc, F f)
    {
        if (g_in || !g_running)
        {
            T old = *a;
            *a = f(old);
            return old;
        }
        sched_point(12);
        In in;
        at_access(a, sizeof(T), true, pc);
        SyncLoc* l = loc_of(a);
        if (mo == mo_seq_cst) sc_sync();
        if (g_weak) hist_sync<T>(l, a);
        on_rmw(l, mo);
        T old = *a;
        *a = f(old);
        if (g_weak) hist_push<T>(l, *a);
        return old;
    }
    template<typename T>
    static bool a_cas(volatile T* a, T* exp, T des, int mo, int fmo, u64 pc)
    {
        if (g_in || !g_running)
        {
            if (*a == *exp)
            {
                *a = des;
                return true;
            }
            *exp = *a;
            return false;
        }
        sched_point(13);
        In in;
        SyncLoc* l = loc_of(a);
        if (mo == mo_seq_cst) sc_sync();
        const T cur = *a;
        const T want = *exp;
        bool ok = memcmp((const void*)&cur, &want, sizeof(T)) == 0;
        at_access(a, sizeof(T), ok, pc);
        if (ok)
        {
            if (g_weak) hist_sync<T>(l, a);
            on_rmw(l, mo);
            *a = des;
            if (g_weak) hist_push<T>(l, des);
            return true;
        }
        if (g_weak)
        {
            // a failed compare-exchange is a load with the failure order (reads the newest value here)
            hist_sync<T>(l, a);
            l->seen[g_cur->id] = l->hist->back().no;
            if (!l->first_read[g_cur->id]) l->first_read[g_cur->id] = g_cur->vc.c[g_cur->id];
        }
        on_load(l, fmo);
        *exp = cur;
        return false;
    }

    static void a_fence(int mo)
    {
        if (g_in || !g_running) return;
        sched_point(14);
        In in;
        on_fence(mo);
    }
}  // namespace sim

using namespace sim;
#define PC ((u64)__builtin_return_address(0))
#define EXP extern "C" SIM_API

EXP void __tsan_init() {}
EXP void __tsan_func_entry(void*) {}
EXP void __tsan_func_exit() {}
EXP void __tsan_ignore_thread_begin() {}
EXP void __tsan_ignore_thread_end() {}
#define RW(n)                                                                               \
    EXP void __tsan_read##n(void* a) { access(a, n, false, PC); }                           \
    EXP void __tsan_write##n(void* a) { access(a, n, true, PC); }                           \
    EXP void __tsan_read##n##_pc(void* a, void* pc) { access(a, n, false, (u64)pc); }       \
    EXP void __tsan_write##n##_pc(void* a, void* pc) { access(a, n, true, (u64)pc); }       \
    EXP void __tsan_read_write##n(void* a) { access(a, n, true, PC); }                      \
    EXP void __tsan_volatile_read##n(void* a) { access(a, n, false, PC); }                  \
    EXP void __tsan_volatile_write##n(void* a) { access(a, n, true, PC); }                  \
    EXP void __tsan_unaligned_read##n(void* a) { access(a, n, false, PC); }                 \
    EXP void __tsan_unaligned_write##n(void* a) { access(a, n, true, PC); }                 \
    EXP void __tsan_unaligned_read_write##n(void* a) { access(a, n, true, PC); }            \
    EXP void __tsan_unaligned_volatile_read##n(void* a) { access(a, n, false, PC); }        \
    EXP void __tsan_unaligned_volatile_write##n(void* a) { access(a, n, true, PC); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
EXP void __tsan_vptr_read(void** a) { access(a, 8, false, PC); }
EXP void __tsan_vptr_update(void** a, void* v)
{
    if (*a != v) access(a, 8, true, PC);
}
EXP void __tsan_read_range(void* a, unsigned long n) { access(a, n, false, PC); }
EXP void __tsan_write_range(void* a, unsigned long n) { access(a, n, true, PC); }
EXP void* __tsan_memcpy(void* d, const void* s, size_t n)
{
    access(s, n, false, PC);
    access(d, n, true, PC);
    return memcpy(d, s, n);
}
EXP void* __tsan_memmove(void* d, const void* s, size_t n)
{
    access(s, n, false, PC);
    access(d, n, true, PC);
    return memmove(d, s, n);
}
EXP void* __tsan_memset(void* d, int c, size_t n)
{
    access(d, n, true, PC);
    return memset(d, c, n);
}

#define ATOM(bits, T)                                                                                                                                              \
    EXP T __tsan_atomic##bits##_load(const volatile T* a, int mo) { return a_load<T>(a, mo, PC); }                                                                \
    EXP void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { a_store<T>(a, v, mo, PC); }                                                                \
    EXP T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC, [v](T) { return v; }); }                                        \
    EXP T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC, [v](T o) { return T(o + v); }); }                              \
    EXP T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC, [v](T o) { return T(o - v); }); }                              \
    EXP T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC, [v](T o) { return T(o & v); }); }                              \
    EXP T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC, [v](T o) { return T(o | v); }); }                               \
    EXP T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC, [v](T o) { return T(o ^ v); }); }                              \
    EXP T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC, [v](T o) { return T(~(o & v)); }); }                          \
    EXP int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int f) { return a_cas<T>(a, c, v, mo, f, PC); }                       \
    EXP int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int f) { return a_cas<T>(a, c, v, mo, f, PC); }                          \
    EXP T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int f)                                                                      \
    {                                                                                                                                                             \
        a_cas<T>(a, &c, v, mo, f, PC);                                                                                                                            \
        return c;                                                                                                                                                 \
    }
ATOM(8, uint8_t)
ATOM(16, uint16_t)
ATOM(32, uint32_t)
ATOM(64, uint64_t)
EXP bool ksim_weak_cas_fails() noexcept { return !g_in && g_running && fault(F_SpuriousCas); }
EXP void __tsan_atomic_thread_fence(int mo) { a_fence(mo); }
EXP void __tsan_atomic_signal_fence(int) {}

// ---- malloc family ------------------------------------------------------------------------------------------------
static bool alloc_fails()
{
    if (!g_running || g_in || !g_cur || !g_cur->alloc_fail) return false;
    return fault(F_AllocFail);
}
EXP void* malloc(size_t n)
{
    if (alloc_fails())
    {
        errno = ENOMEM;
        return nullptr;
    }
    return do_alloc(n, 16);
}
EXP void free(void* p) { do_free(p); }
EXP void* calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) return nullptr;
    void* p = do_alloc(n, 16);
    if (p) memset(p, 0, n);
    return p;
}
EXP void* realloc(void* p, size_t n)
{
    if (!p) return do_alloc(n, 16);
    if (!n)
    {
        do_free(p);
        return nullptr;
    }
    const size_t old = ((Hdr*)((char*)p - sizeof(Hdr)))->size;
    void* q = do_alloc(n, 16);
    memcpy(q, p, old < n ? old : n);
    do_free(p);
    return q;
}
EXP void* memalign(size_t al, size_t n) { return do_alloc(n, al); }
EXP void* aligned_alloc(size_t al, size_t n) { return do_alloc(n, al); }
EXP void* valloc(size_t n) { return do_alloc(n, 4096); }
EXP int posix_memalign(void** out, size_t al, size_t n)
{
    *out = do_alloc(n, al);
    return 0;
}
EXP size_t malloc_usable_size(void* p) { return p ? ((Hdr*)((char*)p - sizeof(Hdr)))->size : 0; }
