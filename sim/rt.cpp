// The deterministic runtime: every source of nondeterminism goes through here.
//  * threads: real pthreads parked and released one at a time by a seeded scheduler; preemption
//    points are all memory accesses of the code under test (it is compiled with
//    -fsanitize=thread but linked against the hooks below), all OpenMP runtime calls and all
//    pthread synchronisation.
//  * the OpenMP runtime (GOMP ABI + omp_* API) is implemented here.
//  * heap, files, clocks, environment and host name are interposed.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "internal.h"

#include <atomic>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <ext/stdio_sync_filebuf.h>
#include <fcntl.h>
#include <iostream>
#include <linux/futex.h>
#include <new>
#include <omp.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdio_ext.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

extern "C" int __cxa_thread_atexit_impl(void (*)(void*), void*, void*);
#define HOOK extern "C" __attribute__((visibility("default")))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)

namespace sim
{
    const char* const fault_names[F_NKINDS] = {
        "team_short", "thread_stall", "preemption",   "bad_alloc",   "open_failure",  "write_EIO",
        "write_ENOSPC", "short_write", "torn_write",  "EINTR",       "read_error",    "short_read",
        "close_failure", "rename_failure", "process_crash", "process_restart", "clock_jump",
        "environment", "hostname", "stream_eof", "stream_error", "stream_chunking", "cancelled_call",
        "process_switch"};

    void* raw_zero(size_t n);
    static void arena_free(void* p);
    static unsigned char g_fill = 0xB5; // what memory holds before it is first written
    // the same leftovers on every stack, not those of the runtime itself
    static __attribute__((noinline)) void fill_stack()
    {
        char b[48 << 10];
        memset(b, g_fill, sizeof b);
        __asm__ volatile("" : : "r"(b) : "memory");
    }
    // ------------------------------------------------------------------ state
    enum TState { T_RUNNABLE, T_BLOCKED, T_IDLE, T_DONE };
    struct Team;
    struct Work; // a work-sharing construct in progress

    struct Icv {
        int nthreads;
        int dyn;
        int nested;
        int sched_kind;
        int sched_chunk;
    };

    struct TlsDtor {
        void (*fn)(void*);
        void* obj;
        TlsDtor* next;
    };
    struct TaskGroup {
        TaskGroup* prev;
        uint64_t open; // tasks not yet finished
        uintptr_t* reductions;
    };
    struct Task { // explicit, or the implicit one of a member of a team
        Task* parent;
        TaskGroup* group; // innermost one at the moment
        void (*fn)(void*);
        void *arg, *buf;
        uint64_t children; // not yet finished
        uint64_t refs;     // itself and its children
        TaskGroup* counted_in;
        bool final, explicit_;
    };
    struct Thread {
        int id;
        TlsDtor* dtors;
        int go; // futex
        TState state;
        const void* waitobj;
        uint64_t cnt;
        Team* team;
        int tnum;
        unsigned ws_seq; // work-sharing constructs this thread has entered in its team
        Work* work;      // current one
        long st_next;    // static schedule position
        int st_done;
        void (*fn)(void*);
        void* data;
        bool pooled;
        bool stalled;
        uint64_t stall_at;
        int prio;
        void* ret;
        void* (*start)(void*);
        bool joined, detached;
        pthread_t pt;
        Icv icv;
        const Switch* sw_pos; // replay cursor
        const Switch* sw_end;
        Team* root; // of a thread made by the code under test
        Task* task; // what it is executing
        Task implicit;
    };

    struct Team {
        Team* parent;
        Thread* master;
        int parent_tnum;
        int n;
        int level, active_level;
        int arrived;
        uint64_t gen;
        int finished;
        Thread* th[1024];
        Work* works[64]; // ring by sequence number
        unsigned ws_base;
        unsigned single_seq;
        void* copyprivate;
        int cancelled;
        // explicit tasks waiting for a thread
        Task* tasks[512];
        int ntasks;
        uint64_t open; // waiting or running
        char task_key;
    };

    struct Work {
        unsigned seq;
        bool init;
        int kind; // 0 static 1 dynamic 2 guided 3 sections
        bool ull, up;
        long next, end, incr, chunk;
        unsigned long long unext, uend, uincr, uchunk;
        long sections;
        int entered, left;
        long ord_cur; // ordered: iteration index expected
        bool has_chunk; // static schedule with a chunk size
        void* mem;      // shared memory the compiler asked for
        uintptr_t* reductions;
        // iterations of a doacross loop
        unsigned dims;
        long counts[8];
        unsigned char* posted;
    };

    static const int MAXT = 4096;
    static Thread g_threads[MAXT];
    static int g_nthreads;
    static __thread Thread* self;
    static int g_runnable; // number of runnable sim threads
    static int g_live;     // not idle, not done
    static uint64_t g_steps, g_budget;
    static Shared* S;
    static const RunConfig* C;
    static uint32_t g_proc;       // index of the simulated process
    static uint32_t g_region_idx; // parallel regions in this process
    static Rng g_wl(1), g_sc(1);  // workload and schedule streams
    static int g_max_threads = 4;
    static Team g_root;
    static bool g_active; // a run is in progress in this process

    // scheduling strategy of this run
    enum Strat { S_SERIAL, S_UNIFORM, S_SLICE, S_PCT, S_SITE, S_STALL, S_SYNC };
    static int g_strat;
    static double g_p;
    static uint64_t g_countdown, g_slice;
    static uint64_t g_chg[8];
    static int g_nchg, g_chgpos;
    static uint64_t g_events;
    static uint64_t g_site_sel[8];
    static int g_nsite;
    static int g_team_mode; // 0 full, 1 sometimes short, 2 often short, 3 always random
    static uint64_t g_switch_cap;
    static uint64_t g_since_switch; // events since the last change of thread

    // ------------------------------------------------------------ low level
    // system calls of the simulator itself: syscall() is one of the seams
    static long raw_syscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
    {
        long ret;
        register long r10 asm("r10") = d;
        register long r8 asm("r8")   = e;
        register long r9 asm("r9")   = f;
        asm volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
        return ret;
    }
    static long futex(int* a, int op, int v) { return raw_syscall(SYS_futex, (long)a, op, v); }
    static void park(Thread* t)
    {
        while(__atomic_load_n(&t->go, __ATOMIC_ACQUIRE) == 0) futex(&t->go, FUTEX_WAIT_PRIVATE, 0);
        __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
    }
    static void unpark(Thread* t)
    {
        __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
        futex(&t->go, FUTEX_WAKE_PRIVATE, 1);
    }
    static int64_t g_mono_off, g_real_off; // jumps of the simulated clocks so far
    static inline void hmix(uint64_t v)
    {
        uint64_t h = S->hash ^ v;
        h *= 0x9FB21C651E98DF25ull;
        h ^= h >> 29;
        S->hash = h + 0x9E3779B97F4A7C15ull;
    }
    static void die_now(int code)
    {
        S->steps += g_steps;
        S->simtime_ns += g_steps + (g_mono_off > 0 ? (uint64_t)g_mono_off : 0);
        _exit(code);
    }
    [[noreturn]] static void violation(const char* cls, const char* msg)
    {
        if(S->status == ST_NONE) {
            S->status = ST_VIOLATION;
            snprintf(S->cls, sizeof S->cls, "%s", cls);
            snprintf(S->msg, sizeof S->msg, "%s", msg);
        }
        die_now(FAIL_EXIT);
        abort();
    }
    static void hang()
    {
        if(g_proc != 0) { // a simulated process: its parent judges
            S->p_hung = 1;
            die_now(HANG_EXIT);
        }
        violation("hang", "step budget exhausted: no progress in bounded steps");
    }

    static bool thread_alive(Thread* t) { return t->state == T_RUNNABLE || t->state == T_BLOCKED; }
    static void set_state(Thread* t, TState s)
    {
        if(t->state == T_RUNNABLE) --g_runnable;
        if(thread_alive(t)) --g_live;
        t->state = s;
        if(t->state == T_RUNNABLE) ++g_runnable;
        if(thread_alive(t)) ++g_live;
    }

    static void init_thread(Thread* t, int id)
    {
        memset(t, 0, sizeof *t);
        t->id    = id;
        t->state = T_IDLE;
        t->prio  = 0;
        if(C && C->replay) {
            const Switch* b = C->switches.data();
            const Switch* e = b + C->switches.size();
            while(b < e && (b->proc < g_proc || (b->proc == g_proc && b->tid < (uint32_t)id))) ++b;
            t->sw_pos = b;
            while(b < e && b->proc == g_proc && b->tid == (uint32_t)id) ++b;
            t->sw_end = b;
        }
    }

    static void record_switch(Thread* from, Thread* to)
    {
        if(S->nsw < MAX_SW) {
            S->sw[S->nsw++] = Switch{g_proc, (uint32_t)from->id, from->cnt, (uint32_t)to->id, 0};
        } else {
            S->sw_overflow = 1;
        }
    }

    static void switch_to(Thread* to)
    {
        Thread* me = self;
        if(to == me) return;
        ++S->switches;
        g_since_switch = 0;
        hmix(((uint64_t)g_proc << 56) ^ ((uint64_t)me->id << 48) ^ ((uint64_t)to->id << 40) ^ me->cnt);
        unpark(to);
        park(me);
    }
    // hand the processor to another thread and do not wait for it (thread ends)
    static void hand_over_from(Thread* me, Thread* to)
    {
        ++S->switches;
        hmix(((uint64_t)g_proc << 56) ^ ((uint64_t)me->id << 48) ^ ((uint64_t)to->id << 40) ^ me->cnt);
        unpark(to);
    }
    static void hand_over(Thread* to) { hand_over_from(self, to); }

    static Thread* nth_runnable(uint64_t k, bool avoid_stalled)
    {
        for(int pass = 0; pass < 2; ++pass) {
            uint64_t i = k;
            int seen   = 0;
            for(int j = 0; j < g_nthreads; ++j) {
                Thread* t = &g_threads[j];
                if(t->state != T_RUNNABLE) continue;
                if(pass == 0 && avoid_stalled && t->stalled) continue;
                ++seen;
                if(i-- == 0) return t;
            }
            if(seen) return nth_runnable(k % seen, pass == 0 && avoid_stalled);
            if(!avoid_stalled) return nullptr;
        }
        return nullptr;
    }

    static Thread* pick_random()
    {
        int n = 0;
        for(int j = 0; j < g_nthreads; ++j)
            if(g_threads[j].state == T_RUNNABLE && !g_threads[j].stalled) ++n;
        if(n == 0) {
            // everything else waits for the stalled threads: the stall ends
            for(int j = 0; j < g_nthreads; ++j)
                if(g_threads[j].state == T_RUNNABLE && g_threads[j].stalled) {
                    g_threads[j].stalled = false;
                    ++n;
                }
            if(n == 0) return nullptr;
            ++S->fired[F_STALL];
        }
        uint64_t k = g_sc.below(n);
        for(int j = 0; j < g_nthreads; ++j)
            if(g_threads[j].state == T_RUNNABLE && !g_threads[j].stalled)
                if(k-- == 0) return &g_threads[j];
        return nullptr;
    }
    static Thread* pick_prio()
    {
        Thread* best = nullptr;
        for(int j = 0; j < g_nthreads; ++j) {
            Thread* t = &g_threads[j];
            if(t->state == T_RUNNABLE && (!best || t->prio > best->prio)) best = t;
        }
        return best;
    }
    static Thread* pick_lowest()
    {
        for(int j = 0; j < g_nthreads; ++j)
            if(g_threads[j].state == T_RUNNABLE) return &g_threads[j];
        return nullptr;
    }
    static Thread* pick_next_slot()
    {
        for(int d = 1; d <= g_nthreads; ++d) {
            Thread* t = &g_threads[(self->id + d) % g_nthreads];
            if(t->state == T_RUNNABLE) return t;
        }
        return nullptr;
    }

    static Thread* replay_choice(Thread* t, bool forced)
    {
        while(t->sw_pos < t->sw_end && t->sw_pos->cnt < t->cnt) ++t->sw_pos;
        if(t->sw_pos < t->sw_end && t->sw_pos->cnt == t->cnt) {
            uint32_t id = t->sw_pos->target;
            ++t->sw_pos;
            if(id < (uint32_t)g_nthreads && g_threads[id].state == T_RUNNABLE) return &g_threads[id];
        }
        return forced ? pick_lowest() : nullptr;
    }

    static void reset_countdown()
    {
        if(g_strat == S_UNIFORM) {
            double u    = g_sc.unit();
            double k    = g_p >= 1. ? 1. : __builtin_log(1. - u) / __builtin_log(1. - g_p);
            g_countdown = k < 1. ? 1 : (k > 1e9 ? 1000000000ull : (uint64_t)k);
        } else if(g_strat == S_SLICE) {
            g_countdown = g_slice;
        } else {
            g_countdown = ~0ull;
        }
    }

    // the running thread cannot continue (blocked, idle or done): somebody else must
    static Thread* forced_choice()
    {
        Thread* me = self;
        ++me->cnt;
        Thread* to;
        if(C->replay) {
            to = replay_choice(me, true);
        } else {
            switch(g_strat) {
                case S_PCT: to = pick_prio(); break;
                case S_SLICE: to = pick_next_slot(); break;
                default: to = pick_random(); break;
            }
        }
        if(!to) violation("deadlock", "no simulated thread can run");
        if(S->status == ST_NONE) record_switch(me, to);
        return to;
    }

    static inline bool is_sel_site(uint64_t pc)
    {
        for(int i = 0; i < g_nsite; ++i)
            if(g_site_sel[i] == pc) return true;
        return false;
    }

    // whoever waits in a loop steps back for the others
    static void yield_to_others(bool fair)
    {
        Thread* me = self;
        Thread* to = nullptr;
        if(C->replay) {
            to = replay_choice(me, false);
        } else {
            if(fair || (g_strat == S_STALL && g_sc.below(64) == 0)) // the stall ends, should it be the others that are waited for
                for(int j = 0; j < g_nthreads; ++j) g_threads[j].stalled = false;
            if(g_strat == S_PCT) {
                int low = 0;
                for(int j = 0; j < g_nthreads; ++j)
                    if(g_threads[j].prio < low) low = g_threads[j].prio;
                me->prio = low - 1;
                to       = pick_prio();
            } else {
                for(int j = 0; j < 4 && (!to || to == me); ++j) to = pick_random();
            }
            if(!to || to == me) to = pick_next_slot();
            if(to && to != me) record_switch(me, to);
        }
        if(to && to != me) switch_to(to);
    }
    static void yield_point()
    {
        if(!self) return;
        if(++g_steps > g_budget) hang();
        ++self->cnt;
        ++g_events;
        if(g_runnable > 1) yield_to_others(false);
    }

    // the running thread may be preempted here
    static void sched_point(uint64_t pc, bool sync, bool conflict)
    {
        Thread* me = self;
        ++me->cnt;
        ++g_events;
        if(g_runnable <= 1) return;
        Thread* to = nullptr;
        ++g_since_switch;
        if(C->replay) {
            if(me->sw_pos != me->sw_end) to = replay_choice(me, false);
            if(!to && g_since_switch > 100001) to = pick_next_slot(); // no recording has such a stretch
        } else {
            if(g_since_switch > 100000) { // weak fairness: nobody runs alone for ever
                yield_to_others(true);
                return;
            }
            if(S->switches > g_switch_cap) return;
            switch(g_strat) {
                case S_SERIAL:
                    if(sync && g_sc.below(4) == 0) to = pick_random();
                    break;
                case S_UNIFORM:
                    if(sync ? g_sc.below(3) == 0 : --g_countdown == 0) {
                        to = pick_random();
                        if(!sync) reset_countdown();
                    }
                    break;
                case S_SLICE:
                    if(--g_countdown == 0) {
                        to = pick_next_slot();
                        reset_countdown();
                    }
                    break;
                case S_PCT:
                    if(g_chgpos < g_nchg && g_events >= g_chg[g_chgpos]) {
                        me->prio = -1 - g_chgpos;
                        ++g_chgpos;
                        to = pick_prio();
                    } else if(sync) {
                        to = pick_prio();
                    }
                    break;
                case S_SITE:
                    if((conflict && g_sc.below(2) == 0) || (g_nsite && is_sel_site(pc) && g_sc.coin(g_p))
                       || (sync && g_sc.below(8) == 0))
                        to = pick_random();
                    break;
                case S_STALL:
                    if(me->stall_at && me->cnt >= me->stall_at && !me->stalled) {
                        me->stall_at = 0;
                        me->stalled  = true;
                        to           = pick_random();
                    } else if(sync && g_sc.below(4) == 0) {
                        to = pick_random();
                    }
                    break;
                case S_SYNC:
                    if(sync) to = pick_random();
                    break;
            }
            if(to && to != me) record_switch(me, to);
        }
        if(to && to != me) {
            if(!sync) ++S->fired[F_PREEMPT];
            switch_to(to);
        }
    }

    static void wake(const void* obj)
    {
        for(int j = 0; j < g_nthreads; ++j) {
            Thread* t = &g_threads[j];
            if(t->state == T_BLOCKED && t->waitobj == obj) {
                t->waitobj = nullptr;
                set_state(t, T_RUNNABLE);
            }
        }
    }
    static void block_on(const void* obj)
    {
        Thread* me  = self;
        me->waitobj = obj;
        set_state(me, T_BLOCKED);
        Thread* to = forced_choice();
        switch_to(to);
    }

    // ------------------------------------------- conflict detection (guidance)
    struct Cell {
        uint64_t key, pc;
        uint32_t epoch;
        int16_t tid;
        int16_t wtid; // last writer, -1 none
    };
    static const uint32_t NCELL = 1u << 15;
    static Cell* g_cells;
    static uint32_t g_epoch = 1, g_cells_used;

    static void add_site(uint64_t pc)
    {
        for(uint32_t i = 0; i < S->nsites; ++i)
            if(S->sites[i] == pc) return;
        if(S->nsites < MAX_SITES) S->sites[S->nsites++] = pc;
    }
    static bool note_access(uint64_t a, bool w, uint64_t pc)
    {
        uint64_t key = a >> 3;
        uint32_t i   = (uint32_t)((key * 0x9E3779B97F4A7C15ull) >> 40) & (NCELL - 1);
        for(;;) {
            Cell& c = g_cells[i];
            if(c.epoch != g_epoch) {
                if(g_cells_used > NCELL / 2) return false;
                ++g_cells_used;
                c.epoch = g_epoch;
                c.key   = key;
                c.pc    = pc;
                c.tid   = (int16_t)self->id;
                c.wtid  = w ? (int16_t)self->id : (int16_t)-1;
                return false;
            }
            if(c.key == key) {
                bool conf = false;
                if(c.tid != self->id && (w || c.wtid >= 0)) conf = true;
                if(!w && c.wtid >= 0 && c.wtid != self->id) conf = true;
                if(conf) {
                    add_site(pc);
                    add_site(c.pc);
                }
                c.tid = (int16_t)self->id;
                c.pc  = pc;
                if(w) c.wtid = (int16_t)self->id;
                return conf;
            }
            i = (i + 1) & (NCELL - 1);
        }
    }

    static __attribute__((noinline)) void access_slow(uint64_t a, uint64_t size, bool w, uint64_t pc)
    {
        bool conflict = false;
        if(!C->replay && (g_strat == S_SITE || C->calibrate)) {
            conflict = note_access(a, w, pc);
            if(size > 8) conflict |= note_access(a + size - 1, w, pc);
        }
        sched_point(pc, false, conflict);
    }
    static inline void access(const volatile void* a, uint64_t size, bool w, void* pc)
    {
        Thread* t = self;
        if(!t) return;
        if(UNLIKELY(++g_steps > g_budget)) hang();
        if(LIKELY(g_runnable <= 1)) return;
        access_slow((uint64_t)a, size, w, (uint64_t)pc);
    }
    // synchronisation event of the running thread
    static void sync_point()
    {
        if(!self) return;
        if(++g_steps > g_budget) hang();
        if(g_runnable <= 1) return;
        sched_point(0, true, false);
    }
} // namespace sim

using namespace sim;

// ============================================================ tsan interface
#define PC __builtin_return_address(0)
HOOK void __tsan_init() {}
HOOK void __tsan_func_entry(void*)
{
    if(self && UNLIKELY(++g_steps > g_budget)) hang();
}
HOOK void __tsan_func_exit() {}
#define RW(N)                                                                                     \
    HOOK void __tsan_read##N(void* a) { access(a, N, false, PC); }                                \
    HOOK void __tsan_write##N(void* a) { access(a, N, true, PC); }                                \
    HOOK void __tsan_volatile_read##N(void* a) { access(a, N, false, PC); }                       \
    HOOK void __tsan_volatile_write##N(void* a) { access(a, N, true, PC); }                       \
    HOOK void __tsan_unaligned_read##N(void* a) { access(a, N, false, PC); }                      \
    HOOK void __tsan_unaligned_write##N(void* a) { access(a, N, true, PC); }                      \
    HOOK void __tsan_unaligned_volatile_read##N(void* a) { access(a, N, false, PC); }             \
    HOOK void __tsan_unaligned_volatile_write##N(void* a) { access(a, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
HOOK void __tsan_read_range(void* a, unsigned long n) { access(a, n, false, PC); }
HOOK void __tsan_write_range(void* a, unsigned long n) { access(a, n, true, PC); }
HOOK void __tsan_vptr_update(void** a, void*) { access(a, 8, true, PC); }
HOOK void __tsan_vptr_read(void** a) { access(a, 8, false, PC); }
#define ATOMIC(N, T)                                                                              \
    HOOK T __tsan_atomic##N##_load(const volatile T* a, int)                                      \
    {                                                                                             \
        access(a, N / 8, false, PC);                                                              \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                              \
    }                                                                                             \
    HOOK void __tsan_atomic##N##_store(volatile T* a, T v, int)                                   \
    {                                                                                             \
        access(a, N / 8, true, PC);                                                               \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                 \
    }                                                                                             \
    HOOK T __tsan_atomic##N##_exchange(volatile T* a, T v, int)                                   \
    {                                                                                             \
        access(a, N / 8, true, PC);                                                               \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                       \
    }                                                                                             \
    HOOK T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int)                                  \
    {                                                                                             \
        access(a, N / 8, true, PC);                                                               \
        return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                        \
    }                                                                                             \
    HOOK T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int)                                  \
    {                                                                                             \
        access(a, N / 8, true, PC);                                                               \
        return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                        \
    }                                                                                             \
    HOOK T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int)                                  \
    {                                                                                             \
        access(a, N / 8, true, PC);                                                               \
        return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                        \
    }                                                                                             \
    HOOK T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int)                                   \
    {                                                                                             \
        access(a, N / 8, true, PC);                                                               \
        return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                         \
    }                                                                                             \
    HOOK T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int)                                  \
    {                                                                                             \
        access(a, N / 8, true, PC);                                                               \
        return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                        \
    }                                                                                             \
    HOOK T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int)                                 \
    {                                                                                             \
        access(a, N / 8, true, PC);                                                               \
        return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                                       \
    }                                                                                             \
    HOOK int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int, int)       \
    {                                                                                             \
        access(a, N / 8, true, PC);                                                               \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);   \
    }                                                                                             \
    HOOK int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int, int)         \
    {                                                                                             \
        access(a, N / 8, true, PC);                                                               \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);   \
    }                                                                                             \
    HOOK T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int, int)             \
    {                                                                                             \
        access(a, N / 8, true, PC);                                                               \
        __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);         \
        return c;                                                                                 \
    }
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned int)
ATOMIC(64, unsigned long)
typedef unsigned __int128 u128;
// only one simulated thread runs at a time: plain accesses are atomic here
HOOK u128 __tsan_atomic128_load(const volatile u128* a, int) { access(a, 16, false, PC); return *a; }
HOOK void __tsan_atomic128_store(volatile u128* a, u128 v, int) { access(a, 16, true, PC); *a = v; }
HOOK u128 __tsan_atomic128_exchange(volatile u128* a, u128 v, int)
{
    access(a, 16, true, PC);
    u128 o = *a;
    *a     = v;
    return o;
}
HOOK int __tsan_atomic128_compare_exchange_strong(volatile u128* a, u128* c, u128 v, int, int)
{
    access(a, 16, true, PC);
    if(*a == *c) {
        *a = v;
        return 1;
    }
    *c = *a;
    return 0;
}
HOOK int __tsan_atomic128_compare_exchange_weak(volatile u128* a, u128* c, u128 v, int, int)
{
    access(a, 16, true, PC);
    if(*a == *c) {
        *a = v;
        return 1;
    }
    *c = *a;
    return 0;
}
HOOK u128 __tsan_atomic128_compare_exchange_val(volatile u128* a, u128 c, u128 v, int, int)
{
    access(a, 16, true, PC);
    u128 o = *a;
    if(o == c) *a = v;
    return o;
}
HOOK void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
HOOK void __tsan_atomic_signal_fence(int) {}
HOOK void* __tsan_memcpy(void* d, const void* s, size_t n)
{
    access(s, n, false, PC);
    access(d, n, true, PC);
    return memcpy(d, s, n);
}
HOOK void* __tsan_memmove(void* d, const void* s, size_t n)
{
    access(s, n, false, PC);
    access(d, n, true, PC);
    return memmove(d, s, n);
}
HOOK void* __tsan_memset(void* d, int c, size_t n)
{
    access(d, n, true, PC);
    return memset(d, c, n);
}

// ================================================================== OpenMP
namespace sim
{
    static int g_omp_dynamic, g_omp_nested = 1, g_max_levels = 4;
    static int g_sched_kind = 1 /* static */, g_sched_chunk = 0;

    static Thread* new_slot()
    {
        // lowest idle pooled thread, or a fresh slot
        if(g_nthreads >= MAXT) violation("internal", "too many threads");
        Thread* t = &g_threads[g_nthreads];
        init_thread(t, g_nthreads);
        ++g_nthreads;
        return t;
    }
    static void release_start(Thread* t)
    {
        if(g_strat == S_PCT) t->prio = 1 + (int)g_sc.below(1000000);
        t->stalled = false;
        if(g_strat == S_STALL) t->stall_at = g_sc.below(3) == 0 ? t->cnt + 1 + g_sc.below(g_slice) : 0;
        set_state(t, T_RUNNABLE);
    }

    static bool run_task(Team* team, const Task* within);
    static void* pool_main(void* arg)
    {
        Thread* t = (Thread*)arg;
        self      = t;
        fill_stack();
        for(;;) {
            park(t);
            t->fn(t->data);
            Team* team = t->team;
            while(run_task(team, nullptr)) {
            }
            ++team->finished;
            if(team->finished == team->n) wake(team);
            set_state(t, T_IDLE);
            t->team    = nullptr;
            Thread* to = forced_choice();
            if(to == t) violation("internal", "idle thread chosen");
            hand_over(to);
        }
        return nullptr;
    }

    extern int (*real_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);

    static Thread* get_worker()
    {
        for(int j = 1; j < g_nthreads; ++j)
            if(g_threads[j].pooled && g_threads[j].state == T_IDLE) return &g_threads[j];
        Thread* t = new_slot();
        t->pooled = true;
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstacksize(&at, 1 << 20);
        pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
        if(real_pthread_create(&t->pt, &at, pool_main, t)) {
            S->status = ST_INTERNAL;
            die_now(FAIL_EXIT);
        }
        pthread_attr_destroy(&at);
        return t;
    }

    static int decide_team(int want)
    {
        uint32_t idx = g_region_idx++;
        if(want <= 1) return want < 1 ? 1 : want;
        int shortby = 0;
        if(C->replay) {
            for(const auto& r : C->teams)
                if(r.proc == g_proc && r.idx == idx) shortby = (int)r.shortby;
            if(shortby >= want) shortby = want - 1;
        } else {
            bool s = false;
            switch(g_team_mode) {
                case 1: s = g_sc.below(5) == 0; break;
                case 2: s = g_sc.below(2) == 0; break;
                case 3: s = true; break;
            }
            if(s) shortby = (int)g_sc.below(want);
        }
        if(shortby) {
            if(S->nteams < MAX_TEAMS) S->teams[S->nteams++] = TeamRec{g_proc, idx, (uint32_t)shortby};
            ++S->fired[F_TEAM_SHORT];
        }
        return want - shortby;
    }

    static Icv root_icv() { return Icv{g_max_threads, g_omp_dynamic, g_omp_nested, g_sched_kind, g_sched_chunk}; }
    static Icv& icv() { return self->icv; }
    static Work* work_alloc() { return (Work*)raw_zero(sizeof(Work)); }

    struct TeamCtx {
        Team team;
        Team* saved_team;
        int saved_tnum;
        unsigned saved_ws;
        Work* saved_work;
        Task* saved_task;
        Task implicit;
    };
    static void implicit_task(Thread* t, Task* k, TaskGroup* g)
    {
        memset(k, 0, sizeof *k);
        k->refs  = 1;
        k->group = g;
        t->task  = k;
    }

    static int team_size(unsigned num_threads)
    {
        Team* outer = self->team;
        int want;
        if(num_threads == 1) {
            want = 1;
        } else {
            want = num_threads ? (int)num_threads : icv().nthreads;
            if(outer->active_level >= g_max_levels) want = 1;
            if(outer->active_level >= 1 && !icv().nested) want = 1;
            if(want > 1000) want = 1000;
        }
        return decide_team(want);
    }
    static TeamCtx* team_start(void (*fn)(void*), void* data, int n, TaskGroup* g = nullptr)
    {
        Thread* me   = self;
        Team* outer  = me->team;
        TeamCtx* ctx = (TeamCtx*)raw_zero(sizeof(TeamCtx));
        Team* t      = &ctx->team;
        t->parent       = outer;
        t->parent_tnum  = me->tnum;
        t->master       = me;
        t->n            = n;
        t->level        = outer->level + 1;
        t->active_level = outer->active_level + (n > 1);
        t->finished     = 0;
        ctx->saved_team = outer;
        ctx->saved_tnum = me->tnum;
        ctx->saved_ws   = me->ws_seq;
        ctx->saved_work = me->work;
        ctx->saved_task = me->task;
        implicit_task(me, &ctx->implicit, g);
        ++S->regions;
        if((uint32_t)n > S->maxteam) S->maxteam = n;
        hmix(0x7EA30000ull + n);
        if(g_live <= 1 && n > 1) {
            ++g_epoch;
            g_cells_used = 0;
        }
        me->team   = t;
        me->tnum   = 0;
        me->ws_seq = 0;
        me->work   = nullptr;
        t->th[0]   = me;
        bool alone = g_live <= 1;
        for(int i = 1; i < n; ++i) {
            Thread* w = get_worker();
            w->team   = t;
            w->tnum   = i;
            w->ws_seq = 0;
            w->work   = nullptr;
            w->fn     = fn;
            w->data   = data;
            w->icv    = me->icv;
            implicit_task(w, &w->implicit, g);
            t->th[i]  = w;
            release_start(w);
        }
        if(alone && n > 1) {
            if(g_strat == S_PCT) me->prio = 1 + (int)g_sc.below(1000000);
            if(g_strat == S_STALL && !C->replay) me->stall_at = g_sc.below(3) == 0 ? me->cnt + 1 + g_sc.below(g_slice) : 0;
        }
        sync_point();
        return ctx;
    }
    static void team_end(TeamCtx* ctx)
    {
        Thread* me = self;
        Team* t    = &ctx->team;
        while(run_task(t, nullptr)) {
        }
        ++t->finished;
        me->stalled = false;
        while(t->finished < t->n) block_on(t);
        me->team   = ctx->saved_team;
        me->tnum   = ctx->saved_tnum;
        me->ws_seq = ctx->saved_ws;
        me->work   = ctx->saved_work;
        me->task   = ctx->saved_task;
        for(auto& w : t->works) {
            if(w && w->mem) arena_free(w->mem);
            if(w && w->posted) arena_free(w->posted);
            arena_free(w);
        }
        arena_free(ctx);
    }
    static void parallel(void (*fn)(void*), void* data, unsigned n)
    {
        if(!self) { // outside a run (zygote): serial
            fn(data);
            return;
        }
        TeamCtx* c = team_start(fn, data, team_size(n));
        fn(data);
        team_end(c);
    }
    static void barrier(Team* t)
    {
        if(t->n <= 1) {
            while(run_task(t, nullptr)) {
            }
            return;
        }
        uint64_t gen = t->gen;
        ++t->arrived;
        while(t->gen == gen) { // who waits executes tasks
            if(run_task(t, nullptr)) continue;
            if(t->arrived == t->n && !t->open) {
                t->arrived = 0;
                ++t->gen;
                wake(&t->gen);
                sync_point();
                break;
            }
            block_on(&t->gen);
        }
    }
    // --------------------------------------------------------- explicit tasks
    // All choices follow from the seed and the number of the choice.
    static uint64_t g_task_choices;
    static uint64_t task_choice(uint64_t n) { return mix(mix(C->seed, 0x7A5C00ull + g_proc), ++g_task_choices) % n; }
    static int task_mode() { return int(mix(C->seed, 0x7A5Cull + g_proc) % 6); }
    static bool descends(const Task* k, const Task* from)
    {
        for(; k; k = k->parent)
            if(k == from) return true;
        return false;
    }
    static void task_unref(Task* k)
    {
        while(k && --k->refs == 0 && k->explicit_) {
            Task* up = k->parent;
            if(k->buf) arena_free(k->buf);
            arena_free(k);
            k = up;
        }
    }
    static Task* task_make(void (*fn)(void*))
    {
        Thread* me   = self;
        Task* k      = (Task*)raw_zero(sizeof(Task));
        k->parent    = me->task;
        k->fn        = fn;
        k->explicit_ = true;
        k->refs      = 1;
        if(me->task) {
            k->group = me->task->group;
            k->final = me->task->final;
            ++me->task->children;
            ++me->task->refs;
        }
        k->counted_in = k->group;
        if(k->group) ++k->group->open;
        ++me->team->open;
        return k;
    }
    static void task_execute(Team* team, Task* k)
    {
        Thread* me         = self;
        Task* const task   = me->task;
        Work* const work   = me->work;
        const unsigned ws  = me->ws_seq;
        const long st_next = me->st_next;
        me->task           = k;
        k->fn(k->arg);
        me->task    = task;
        me->work    = work;
        me->ws_seq  = ws;
        me->st_next = st_next;
        if(k->parent) --k->parent->children;
        if(k->counted_in) --k->counted_in->open;
        --team->open;
        task_unref(k);
        if(team->level > 0) {
            wake(&team->task_key);
            if(!team->open) wake(&team->gen);
        }
        sync_point();
    }
    // executes a waiting task (only descendants of within, if given); false when there is none
    static bool run_task(Team* team, const Task* within)
    {
        if(!team || !team->ntasks) return false;
        int fit[512], n = 0;
        for(int i = 0; i < team->ntasks; ++i)
            if(!within || descends(team->tasks[i]->parent, within)) fit[n++] = i;
        if(!n) return false;
        const int mode = task_mode() % 3;
        const int i    = fit[mode == 0 ? 0 : mode == 1 ? n - 1 : int(task_choice(uint64_t(n)))];
        Task* k        = team->tasks[i];
        for(int j = i + 1; j < team->ntasks; ++j) team->tasks[j - 1] = team->tasks[j];
        --team->ntasks;
        hmix(0x7A5CE000ull + (uint64_t)self->id * 1024 + (uint64_t)i);
        task_execute(team, k);
        return true;
    }
    static void task_helper(void*) {}
    static void task_start(Task* k, bool now)
    {
        Thread* me = self;
        Team* t    = me->team;
        const int mode = task_mode();
        if(!now && t->level > 0 && t->ntasks < 512 && mode != 5 && (mode >= 3 ? task_choice(2) == 0 : true)) {
            t->tasks[t->ntasks++] = k;
            hmix(0x7A5CF000ull + (uint64_t)t->ntasks);
            wake(&t->gen);
            wake(&t->task_key);
            // members that have already left the region can still take it
            for(int i = 1; i < t->n; ++i) {
                Thread* w = t->th[i];
                if(w == me || w->state != T_IDLE || w->team || t->finished == 0 || task_choice(2)) continue;
                w->team   = t;
                w->tnum   = i;
                w->ws_seq = 0;
                w->work   = nullptr;
                w->fn     = task_helper;
                w->data   = nullptr;
                implicit_task(w, &w->implicit, nullptr);
                --t->finished;
                release_start(w);
                break;
            }
            sync_point();
        } else {
            task_execute(t, k);
        }
    }
    static Work* enter_work(bool& first)
    {
        Thread* me = self;
        Team* t    = me->team;
        unsigned q = me->ws_seq++;
        Work*& w   = t->works[q % 64];
        if(!w) w = work_alloc();
        if(me->work && me->work->init && ++me->work->left == t->n) wake(me->work);
        // nobody gets a whole turn of the ring ahead of the others
        while(w->init && w->seq != q && w->left < t->n) block_on(w);
        if(!w->init || w->seq != q) {
            if(w->mem) arena_free(w->mem);
            if(w->posted) arena_free(w->posted);
            memset(w, 0, sizeof *w);
            w->seq  = q;
            w->init = true;
            first   = true;
        } else {
            first = false;
        }
        ++w->entered;
        me->work = w;
        return w;
    }
    static void work_setup(Work* w, int kind, long start, long end, long incr, long chunk)
    {
        w->kind  = kind;
        w->next  = start;
        w->end   = end;
        w->incr  = incr;
        w->chunk = chunk < 1 ? 1 : chunk;
        w->has_chunk = chunk > 0;
        w->ord_cur = start;
        if((incr > 0 && start > end) || (incr < 0 && start < end)) w->end = start;
    }
    static bool dyn_next(Work* w, long* s, long* e)
    {
        sync_point();
        long left = w->incr > 0 ? (w->end - w->next + w->incr - 1) / w->incr
                                : (w->end - w->next + w->incr + 1) / w->incr;
        if(left <= 0) return false;
        long n = w->chunk;
        if(w->kind == 2) {
            long g = (left + self->team->n - 1) / self->team->n;
            if(g > n) n = g;
        }
        if(n > left) n = left;
        *s = w->next;
        *e = w->next + n * w->incr;
        if((w->incr > 0 && *e > w->end) || (w->incr < 0 && *e < w->end)) *e = w->end;
        w->next += n * w->incr;
        hmix(0xC4000000ull ^ ((uint64_t)self->id << 20) ^ (uint64_t)*s);
        return true;
    }
    // static schedule handed out through the runtime (schedule(runtime) or ordered)
    static bool static_next(Work* w, long* s, long* e, bool has_chunk)
    {
        Thread* me = self;
        sync_point();
        long total = w->incr > 0 ? (w->end - w->next + w->incr - 1) / w->incr
                                 : (w->end - w->next + w->incr + 1) / w->incr;
        if(total < 0) total = 0;
        long n = me->team->n, i = me->tnum;
        long lo, hi;
        if(!has_chunk) {
            if(me->st_next > 0) return false;
            long q = total / n, r = total % n;
            lo = i * q + (i < r ? i : r);
            hi = lo + q + (i < r ? 1 : 0);
        } else {
            lo = (me->st_next * n + i) * w->chunk;
            hi = lo + w->chunk;
            if(hi > total) hi = total;
        }
        ++me->st_next;
        if(lo >= hi) return false;
        *s = w->next + lo * w->incr;
        *e = w->next + hi * w->incr;
        return true;
    }
    static bool loop_start(int kind, long start, long end, long incr, long chunk, long* s, long* e)
    {
        bool first;
        Work* w = enter_work(first);
        if(first) work_setup(w, kind, start, end, incr, chunk);
        self->st_next = 0;
        return w->kind == 0 ? static_next(w, s, e, w->has_chunk) : dyn_next(w, s, e);
    }
    static void runtime_sched(int& kind, long& chunk)
    {
        int k = icv().sched_kind & 7;
        chunk = icv().sched_chunk;
        kind  = k == 2 ? 1 : k == 3 ? 2 : 0;
        if(kind != 0 && chunk < 1) chunk = 1;
    }
    static bool loop_next(long* s, long* e)
    {
        Work* w = self->work;
        if(w->kind == 0) return static_next(w, s, e, w->has_chunk);
        return dyn_next(w, s, e);
    }
    static bool uloop_start(int kind, bool up, unsigned long long start, unsigned long long end,
                            unsigned long long incr, unsigned long long chunk,
                            unsigned long long* s, unsigned long long* e)
    {
        // ranges used here fit into long
        return loop_start(kind, (long)start, (long)end, up ? (long)incr : (long)incr, (long)chunk,
                          (long*)s, (long*)e);
    }
    static void need_self()
    {
        if(!self) {
            fprintf(stderr, "OpenMP worksharing outside of a simulated run\n");
            abort();
        }
    }

    // ordered regions: threads take turns in iteration order of the chunk starts
    struct Lk {
        const void* key;
        Thread* owner;
        int depth;
    };
    static Lk g_locks[4096];
    static int g_nlocks;
    static Lk* lock_of(const void* k)
    {
        for(int i = 0; i < g_nlocks; ++i)
            if(g_locks[i].key == k) return &g_locks[i];
        if(g_nlocks == 4096) {
            // recycle a free entry
            for(int i = 0; i < g_nlocks; ++i)
                if(!g_locks[i].owner) {
                    g_locks[i].key = k;
                    return &g_locks[i];
                }
            violation("internal", "too many locks");
        }
        g_locks[g_nlocks] = Lk{k, nullptr, 0};
        return &g_locks[g_nlocks++];
    }
    static void lock(const void* k, bool recursive = false)
    {
        sync_point();
        Lk* l = lock_of(k);
        if(recursive && l->owner == self) {
            ++l->depth;
            return;
        }
        while(l->owner) block_on(l);
        l->owner = self;
        l->depth = 1;
    }
    static bool trylock(const void* k, bool recursive = false)
    {
        sync_point();
        Lk* l = lock_of(k);
        if(recursive && l->owner == self) {
            ++l->depth;
            return true;
        }
        if(l->owner) return false;
        l->owner = self;
        l->depth = 1;
        return true;
    }
    static void unlock(const void* k)
    {
        Lk* l = lock_of(k);
        if(--l->depth > 0) return;
        l->owner = nullptr;
        wake(l);
        sync_point();
    }
    static char g_crit_default, g_atomic_key;
} // namespace sim

HOOK void GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned) { parallel(fn, d, n); }
static __thread TeamCtx* g_old_ctx[16];
static __thread int g_old_depth;
HOOK void GOMP_parallel_start(void (*fn)(void*), void* d, unsigned n)
{
    need_self();
    g_old_ctx[g_old_depth++] = team_start(fn, d, team_size(n));
}
HOOK void GOMP_parallel_end()
{
    need_self();
    team_end(g_old_ctx[--g_old_depth]);
}
// combined constructs: the work share must exist before the threads ask for it
struct PArg {
    void (*fn)(void*);
    void* d;
    int kind;
    long start, end, incr, chunk;
};
static void ptramp(void* v)
{
    PArg* p = (PArg*)v;
    bool first;
    Work* w = enter_work(first);
    if(first) work_setup(w, p->kind, p->start, p->end, p->incr, p->chunk);
    self->st_next = 0;
    p->fn(p->d);
}
static void ploop2(void (*fn)(void*), void* d, unsigned n, int kind, long start, long end, long incr, long chunk)
{
    need_self();
    PArg a{fn, d, kind, start, end, incr, chunk};
    parallel(ptramp, &a, n);
}
#define PLOOP(NAME, KIND)                                                                         \
    HOOK void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long s, long e,   \
                                        long i, long c, unsigned)                                 \
    {                                                                                             \
        ploop2(fn, d, n, KIND, s, e, i, c);                                                       \
    }
PLOOP(static, 0)
PLOOP(dynamic, 1)
PLOOP(guided, 2)
PLOOP(nonmonotonic_dynamic, 1)
PLOOP(nonmonotonic_guided, 2)
#define PLOOPR(NAME)                                                                              \
    HOOK void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long s, long e,   \
                                        long i, unsigned)                                         \
    {                                                                                             \
        need_self();                                                                              \
        int k;                                                                                    \
        long c;                                                                                   \
        runtime_sched(k, c);                                                                      \
        ploop2(fn, d, n, k, s, e, i, c);                                                          \
    }
PLOOPR(runtime)
PLOOPR(nonmonotonic_runtime)
PLOOPR(maybe_nonmonotonic_runtime)

#define LOOPS(NAME, KIND)                                                                         \
    HOOK bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* ps, long* pe)        \
    {                                                                                             \
        need_self();                                                                              \
        return loop_start(KIND, s, e, i, c, ps, pe);                                              \
    }                                                                                             \
    HOOK bool GOMP_loop_##NAME##_next(long* ps, long* pe) { return loop_next(ps, pe); }           \
    HOOK bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e,   \
                                           unsigned long long i, unsigned long long c,            \
                                           unsigned long long* ps, unsigned long long* pe)        \
    {                                                                                             \
        need_self();                                                                              \
        return uloop_start(KIND, up, s, e, i, c, ps, pe);                                         \
    }                                                                                             \
    HOOK bool GOMP_loop_ull_##NAME##_next(unsigned long long* ps, unsigned long long* pe)         \
    {                                                                                             \
        return loop_next((long*)ps, (long*)pe);                                                   \
    }
LOOPS(static, 0)
LOOPS(dynamic, 1)
LOOPS(guided, 2)
LOOPS(nonmonotonic_dynamic, 1)
LOOPS(nonmonotonic_guided, 2)
#define LOOPR(NAME)                                                                               \
    HOOK bool GOMP_loop_##NAME##_start(long s, long e, long i, long* ps, long* pe)                \
    {                                                                                             \
        need_self();                                                                              \
        int k;                                                                                    \
        long c;                                                                                   \
        runtime_sched(k, c);                                                                      \
        return loop_start(k, s, e, i, c, ps, pe);                                                 \
    }                                                                                             \
    HOOK bool GOMP_loop_##NAME##_next(long* ps, long* pe) { return loop_next(ps, pe); }           \
    HOOK bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e,   \
                                           unsigned long long i, unsigned long long* ps,          \
                                           unsigned long long* pe)                                \
    {                                                                                             \
        need_self();                                                                              \
        int k;                                                                                    \
        long c;                                                                                   \
        runtime_sched(k, c);                                                                      \
        return uloop_start(k, up, s, e, i, c, ps, pe);                                            \
    }                                                                                             \
    HOOK bool GOMP_loop_ull_##NAME##_next(unsigned long long* ps, unsigned long long* pe)         \
    {                                                                                             \
        return loop_next((long*)ps, (long*)pe);                                                   \
    }
LOOPR(runtime)
LOOPR(nonmonotonic_runtime)
LOOPR(maybe_nonmonotonic_runtime)
// ordered loops are handed out one iteration at a time in order, so that an ordered region can
// simply wait for its turn
#define OLOOP(NAME)                                                                               \
    HOOK bool GOMP_loop_ordered_##NAME##_start(long s, long e, long i, long c, long* ps, long* pe)\
    {                                                                                             \
        need_self();                                                                              \
        (void)c;                                                                                  \
        bool r = loop_start(1, s, e, i, 1, ps, pe);                                               \
        if(r) self->st_next = *ps;                                                                \
        return r;                                                                                 \
    }                                                                                             \
    HOOK bool GOMP_loop_ordered_##NAME##_next(long* ps, long* pe)                                 \
    {                                                                                             \
        Work* w = self->work;                                                                     \
        while(w->ord_cur < self->st_next && w->incr > 0) block_on(&w->ord_cur);                   \
        if(w->ord_cur == self->st_next) {                                                         \
            w->ord_cur += w->incr;                                                                \
            wake(&w->ord_cur);                                                                    \
        }                                                                                         \
        bool r = loop_next(ps, pe);                                                               \
        if(r) self->st_next = *ps;                                                                \
        return r;                                                                                 \
    }
OLOOP(static)
OLOOP(dynamic)
OLOOP(guided)
#define UOLOOP(NAME)                                                                              \
    HOOK bool GOMP_loop_ull_ordered_##NAME##_start(bool, unsigned long long s,                    \
        unsigned long long e, unsigned long long i, unsigned long long c,                         \
        unsigned long long* ps, unsigned long long* pe)                                           \
    {                                                                                             \
        return GOMP_loop_ordered_##NAME##_start((long)s, (long)e, (long)i, (long)c, (long*)ps, (long*)pe); \
    }                                                                                             \
    HOOK bool GOMP_loop_ull_ordered_##NAME##_next(unsigned long long* ps, unsigned long long* pe) \
    {                                                                                             \
        return GOMP_loop_ordered_##NAME##_next((long*)ps, (long*)pe);                             \
    }
UOLOOP(static)
UOLOOP(dynamic)
UOLOOP(guided)
HOOK bool GOMP_loop_ordered_runtime_start(long s, long e, long i, long* ps, long* pe)
{
    return GOMP_loop_ordered_dynamic_start(s, e, i, 1, ps, pe);
}
HOOK bool GOMP_loop_ordered_runtime_next(long* ps, long* pe)
{
    return GOMP_loop_ordered_dynamic_next(ps, pe);
}
HOOK bool GOMP_loop_ull_ordered_runtime_start(bool, unsigned long long s, unsigned long long e, unsigned long long i,
                                              unsigned long long* ps, unsigned long long* pe)
{
    return GOMP_loop_ordered_dynamic_start((long)s, (long)e, (long)i, 1, (long*)ps, (long*)pe);
}
HOOK bool GOMP_loop_ull_ordered_runtime_next(unsigned long long* ps, unsigned long long* pe)
{
    return GOMP_loop_ordered_dynamic_next((long*)ps, (long*)pe);
}
HOOK void GOMP_ordered_start()
{
    need_self();
    Work* w = self->work;
    if(!w || self->team->n == 1) return;
    while(w->ord_cur != self->st_next) block_on(&w->ord_cur);
}
HOOK void GOMP_ordered_end()
{
    Work* w = self->work;
    if(!w || self->team->n == 1) return;
    w->ord_cur = self->st_next + w->incr;
    wake(&w->ord_cur);
    sync_point();
}
HOOK void GOMP_loop_end() { barrier(self->team); }
HOOK void GOMP_loop_end_nowait() { sync_point(); }
HOOK bool GOMP_loop_end_cancel()
{
    barrier(self->team);
    return false;
}
static void workshare_extras(Work* w, bool first, uintptr_t* reductions, void** mem);
static bool generic_start(bool ordered, long s, long e, long i, long sched, long c, long* ps, long* pe, uintptr_t* red, void** mem)
{
    need_self();
    int k    = (int)(sched & 7);
    int kind = k == 2 ? 1 : k == 3 ? 2 : 0;
    if(k == 0) {
        long cc;
        runtime_sched(kind, cc);
        c = cc;
    }
    if(ordered) {
        kind = 1;
        c    = 1;
    }
    bool first;
    Work* w = enter_work(first);
    if(first) work_setup(w, kind, s, e, i, c);
    workshare_extras(w, first, red, mem);
    self->st_next = 0;
    if(!ps) return true;
    bool r = w->kind == 0 ? static_next(w, ps, pe, w->has_chunk) : dyn_next(w, ps, pe);
    if(r && ordered) self->st_next = *ps;
    return r;
}
HOOK bool GOMP_loop_start(long s, long e, long i, long sched, long c, long* ps, long* pe, uintptr_t* red, void** mem)
{
    return generic_start(false, s, e, i, sched, c, ps, pe, red, mem);
}
HOOK bool GOMP_loop_ordered_start(long s, long e, long i, long sched, long c, long* ps, long* pe, uintptr_t* red, void** mem)
{
    return generic_start(true, s, e, i, sched, c, ps, pe, red, mem);
}
HOOK bool GOMP_loop_ull_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, long sched,
                              unsigned long long c, unsigned long long* ps, unsigned long long* pe, uintptr_t* red, void** mem)
{
    return generic_start(false, (long)s, (long)e, (long)i, sched, (long)c, (long*)ps, (long*)pe, red, mem);
}
HOOK bool GOMP_loop_ull_ordered_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, long sched,
                                      unsigned long long c, unsigned long long* ps, unsigned long long* pe, uintptr_t* red,
                                      void** mem)
{
    return generic_start(true, (long)s, (long)e, (long)i, sched, (long)c, (long*)ps, (long*)pe, red, mem);
}
// loops with dependences between iterations (ordered depend(sink/source))
static bool doacross_start(unsigned n, const long* counts, long sched, long c, long* ps, long* pe)
{
    need_self();
    int k    = (int)(sched & 7);
    int kind = k == 2 ? 1 : k == 3 ? 2 : 0;
    if(k == 0) {
        long cc;
        runtime_sched(kind, cc);
        c = cc;
    }
    bool first;
    Work* w = enter_work(first);
    if(first) {
        work_setup(w, kind, 0, counts[0], 1, c);
        long total = 1;
        w->dims    = n < 8 ? n : 8;
        for(unsigned j = 0; j < w->dims; ++j) total *= w->counts[j] = counts[j];
        w->posted = (unsigned char*)raw_zero(total > 0 ? (size_t)total : 1);
    }
    self->st_next = 0;
    return w->kind == 0 ? static_next(w, ps, pe, w->has_chunk) : dyn_next(w, ps, pe);
}
static void doacross_post(const long* at)
{
    Work* w = self->work;
    if(!w || !w->posted) return;
    long i = 0;
    for(unsigned j = 0; j < w->dims; ++j) i = i * w->counts[j] + at[j];
    w->posted[i] = 1;
    wake(w->posted);
    sync_point();
}
static void doacross_wait(const long* at)
{
    Work* w = self->work;
    if(!w || !w->posted) return;
    sync_point();
    long i = 0;
    for(unsigned j = 0; j < w->dims; ++j) i = i * w->counts[j] + at[j];
    while(!w->posted[i]) block_on(w->posted);
}
#define DOACROSS(NAME, KIND)                                                                                        \
    HOOK bool GOMP_loop_doacross_##NAME##_start(unsigned n, long* counts, long c, long* ps, long* pe)               \
    {                                                                                                               \
        return doacross_start(n, counts, KIND, c, ps, pe);                                                          \
    }                                                                                                               \
    HOOK bool GOMP_loop_ull_doacross_##NAME##_start(unsigned n, unsigned long long* counts, unsigned long long c,   \
                                                    unsigned long long* ps, unsigned long long* pe)                 \
    {                                                                                                               \
        return doacross_start(n, (const long*)counts, KIND, (long)c, (long*)ps, (long*)pe);                         \
    }
DOACROSS(static, 1)
DOACROSS(dynamic, 2)
DOACROSS(guided, 3)
HOOK bool GOMP_loop_doacross_runtime_start(unsigned n, long* counts, long* ps, long* pe)
{
    return doacross_start(n, counts, 0, 0, ps, pe);
}
HOOK bool GOMP_loop_ull_doacross_runtime_start(unsigned n, unsigned long long* counts, unsigned long long* ps, unsigned long long* pe)
{
    return doacross_start(n, (const long*)counts, 0, 0, (long*)ps, (long*)pe);
}
HOOK bool GOMP_loop_doacross_start(unsigned n, long* counts, long sched, long c, long* ps, long* pe, uintptr_t* red, void** mem)
{
    bool r = doacross_start(n, counts, sched, c, ps, pe);
    workshare_extras(self->work, !self->work->mem && !self->work->reductions, red, mem);
    return r;
}
HOOK bool GOMP_loop_ull_doacross_start(unsigned n, unsigned long long* counts, long sched, unsigned long long c, unsigned long long* ps,
                                       unsigned long long* pe, uintptr_t* red, void** mem)
{
    return GOMP_loop_doacross_start(n, (long*)counts, sched, (long)c, (long*)ps, (long*)pe, red, mem);
}
HOOK void GOMP_doacross_post(long* counts) { doacross_post(counts); }
HOOK void GOMP_doacross_ull_post(unsigned long long* counts) { doacross_post((const long*)counts); }
#define WAIT(TYPE)                                                                                                  \
    long at[8];                                                                                                     \
    at[0] = (long)first;                                                                                            \
    va_list ap;                                                                                                     \
    va_start(ap, first);                                                                                            \
    const unsigned dims = self && self->work ? self->work->dims : 1;                                                \
    for(unsigned j = 1; j < dims; ++j) at[j] = (long)va_arg(ap, TYPE);                                              \
    va_end(ap);                                                                                                     \
    doacross_wait(at)
HOOK void GOMP_doacross_wait(long first, ...) { WAIT(long); }
HOOK void GOMP_doacross_ull_wait(unsigned long long first, ...) { WAIT(unsigned long long); }
static unsigned sections_next_()
{
    sync_point();
    Work* w = self->work;
    if(w->next >= w->end) return 0;
    hmix(0x5EC7ull + self->id * 131 + w->next);
    return (unsigned)++w->next;
}
HOOK unsigned GOMP_sections_start(unsigned n)
{
    need_self();
    bool first;
    Work* w = enter_work(first);
    if(first) {
        w->next = 0;
        w->end  = n;
    }
    return sections_next_();
}
HOOK unsigned GOMP_sections2_start(unsigned n, uintptr_t* red, void** mem)
{
    need_self();
    bool first;
    Work* w = enter_work(first);
    if(first) {
        w->next = 0;
        w->end  = n;
    }
    workshare_extras(w, first, red, mem);
    return sections_next_();
}
HOOK void GOMP_scope_start(uintptr_t* red)
{
    need_self();
    bool first;
    Work* w = enter_work(first);
    workshare_extras(w, first, red, nullptr);
}
HOOK unsigned GOMP_sections_next() { return sections_next_(); }
HOOK void GOMP_sections_end() { barrier(self->team); }
HOOK void GOMP_sections_end_nowait() { sync_point(); }
HOOK bool GOMP_sections_end_cancel()
{
    barrier(self->team);
    return false;
}
struct SArg {
    void (*fn)(void*);
    void* d;
    unsigned count;
};
static void stramp(void* v)
{
    SArg* p = (SArg*)v;
    bool first;
    Work* w = enter_work(first);
    if(first) {
        w->next = 0;
        w->end  = p->count;
    }
    p->fn(p->d);
}
HOOK void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned count, unsigned)
{
    need_self();
    SArg a{fn, d, count};
    parallel(stramp, &a, n);
}
HOOK bool GOMP_single_start()
{
    if(!self) return true;
    sync_point();
    bool first;
    enter_work(first);
    return first;
}
HOOK void* GOMP_single_copy_start()
{
    bool first;
    Work* w = enter_work(first);
    if(first) return nullptr;
    (void)w;
    barrier(self->team);
    void* r = self->team->copyprivate;
    barrier(self->team);
    return r;
}
HOOK void GOMP_single_copy_end(void* d)
{
    self->team->copyprivate = d;
    barrier(self->team);
    barrier(self->team);
}
HOOK void GOMP_barrier()
{
    if(self) barrier(self->team);
}
HOOK bool GOMP_barrier_cancel()
{
    if(self) barrier(self->team);
    return false;
}
HOOK bool GOMP_cancel(int, bool) { return false; }
HOOK bool GOMP_cancellation_point(int) { return false; }
HOOK void GOMP_critical_start()
{
    if(self) lock(&g_crit_default);
}
HOOK void GOMP_critical_end()
{
    if(self) unlock(&g_crit_default);
}
HOOK void GOMP_critical_name_start(void** p)
{
    if(self) lock(p);
}
HOOK void GOMP_critical_name_end(void** p)
{
    if(self) unlock(p);
}
HOOK void GOMP_atomic_start()
{
    if(self) lock(&g_atomic_key);
}
HOOK void GOMP_atomic_end()
{
    if(self) unlock(&g_atomic_key);
}
static char* task_buffer(Task* k, long size, long align)
{
    if(align < 16) align = 16;
    k->buf = raw_zero(size + align);
    return (char*)(((uintptr_t)k->buf + align - 1) & ~(uintptr_t)(align - 1));
}
HOOK void GOMP_task(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long arg_size,
                    long arg_align, bool if_clause, unsigned flags, void**, int, void*)
{
    if(!self) { // outside a run (zygote)
        char buf[4096] __attribute__((aligned(64)));
        if(cpyfn) cpyfn(buf, data);
        fn(cpyfn ? buf : data);
        return;
    }
    sync_point();
    Task* k  = task_make(fn);
    k->final = k->final || (flags & 2);
    char* a  = task_buffer(k, arg_size, arg_align);
    if(cpyfn)
        cpyfn(a, data);
    else
        memcpy(a, data, arg_size);
    k->arg = a;
    // tasks with dependences are executed in the order of their creation
    task_start(k, !if_clause || k->final || (flags & 8));
}
HOOK void GOMP_taskwait()
{
    if(!self) return;
    sync_point();
    while(self->task && self->task->children)
        if(!run_task(self->team, self->task)) block_on(&self->team->task_key);
}
HOOK void GOMP_taskwait_depend(void**) { sync_point(); }
HOOK void GOMP_taskwait_depend_nowait(void**) { sync_point(); }
HOOK void GOMP_taskyield()
{
    sync_point();
    if(self && self->task && self->task->explicit_) run_task(self->team, self->task);
}
HOOK void GOMP_taskgroup_start()
{
    if(!self || !self->task) return;
    TaskGroup* g      = (TaskGroup*)raw_zero(sizeof(TaskGroup));
    g->prev           = self->task->group;
    g->reductions     = g->prev ? g->prev->reductions : nullptr;
    self->task->group = g;
}
HOOK void GOMP_taskgroup_end()
{
    sync_point();
    if(!self || !self->task || !self->task->group) return;
    TaskGroup* g = self->task->group;
    while(g->open)
        if(!run_task(self->team, self->task)) block_on(&self->team->task_key);
    self->task->group = g->prev;
    arena_free(g);
}
HOOK void GOMP_taskloop(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long arg_size,
                        long arg_align, unsigned flags, unsigned long num_tasks, int, long start, long end, long step)
{
    if(!self) abort();
    const unsigned long n = step > 0 ? (start < end ? (unsigned long)(end - start + step - 1) / step : 0)
                                     : (start > end ? (unsigned long)(start - end - step - 1) / -step : 0);
    unsigned long chunk = 1;
    if(flags & (1u << 9))
        chunk = num_tasks; // grain size
    else if(num_tasks)
        chunk = (n + num_tasks - 1) / num_tasks;
    else
        chunk = 1 + (n ? task_choice(n) : 0);
    if(chunk < (n + 199) / 200) chunk = (n + 199) / 200;
    const bool group = !(flags & (1u << 11));
    if(group) GOMP_taskgroup_start();
    if(flags & (1u << 12)) { // reductions
        struct Head {
            long t1, t2;
            uintptr_t* ptr;
        }* h = (Head*)data;
        extern void taskgroup_reductions(uintptr_t*);
        taskgroup_reductions(h->ptr);
    }
    for(unsigned long i = 0; i < n; i += chunk) {
        sync_point();
        Task* k  = task_make(fn);
        k->final = k->final || (flags & 2);
        char* a  = task_buffer(k, arg_size, arg_align);
        if(cpyfn)
            cpyfn(a, data);
        else
            memcpy(a, data, arg_size);
        ((long*)a)[0] = start + (long)i * step;
        ((long*)a)[1] = i + chunk < n ? start + (long)(i + chunk) * step : end;
        k->arg        = a;
        task_start(k, !(flags & (1u << 10)) || k->final);
    }
    if(group) GOMP_taskgroup_end();
}
// task reductions: blocks of private copies, one per thread (layout as the compiler expects it)
static void reduction_register(uintptr_t* data, uintptr_t* old, int nthreads)
{
    for(uintptr_t* d = data;; d = (uintptr_t*)d[4]) {
        const size_t size = d[1] * (size_t)nthreads, align = d[2] < 16 ? 16 : d[2];
        char* p = (char*)raw_zero(size + align);
        p       = (char*)(((uintptr_t)p + align - 1) & ~(uintptr_t)(align - 1));
        d[2]    = (uintptr_t)p;
        d[6]    = (uintptr_t)p + size;
        d[5]    = 0;
        for(size_t j = 0; j < d[0]; ++j) d[7 + j * 3 + 2] = (uintptr_t)d;
        if(!d[4]) {
            d[4] = (uintptr_t)old;
            break;
        }
    }
}
void taskgroup_reductions(uintptr_t* data)
{
    TaskGroup* g = self->task->group;
    reduction_register(data, g->reductions, self->team->n);
    g->reductions = data;
}
HOOK void GOMP_taskgroup_reduction_register(uintptr_t* data)
{
    need_self();
    taskgroup_reductions(data);
}
HOOK void GOMP_taskgroup_reduction_unregister(uintptr_t*) {} // the blocks are given back with the run
// task reductions and shared memory of a work-sharing construct
static void workshare_extras(Work* w, bool first, uintptr_t* red, void** mem)
{
    if(red) {
        GOMP_taskgroup_start();
        if(first) {
            taskgroup_reductions(red);
            w->reductions = red;
        } else { // the blocks belong to whoever came first
            uintptr_t* orig = w->reductions;
            for(uintptr_t *d = red, *o = orig;; d = (uintptr_t*)d[4], o = (uintptr_t*)o[4]) {
                d[2] = o[2];
                d[6] = o[6];
                d[5] = o[5];
                for(size_t j = 0; j < d[0]; ++j) d[7 + j * 3 + 2] = (uintptr_t)d;
                if(!d[4]) {
                    d[4] = (uintptr_t)self->task->group->reductions;
                    break;
                }
            }
            self->task->group->reductions = red;
        }
    }
    if(mem) {
        if(first) w->mem = raw_zero((size_t)*mem + 64);
        *mem = (void*)(((uintptr_t)w->mem + 63) & ~(uintptr_t)63);
    }
}
HOOK void GOMP_workshare_task_reduction_unregister(bool cancelled)
{
    if(!self) return;
    GOMP_taskgroup_end();
    if(!cancelled) barrier(self->team);
}
// a league of teams on the host: one after another
static int g_league = 1, g_team_num;
HOOK void GOMP_teams_reg(void (*fn)(void*), void* data, unsigned n, unsigned, unsigned)
{
    const int l = g_league, t = g_team_num;
    g_league    = n ? (int)n : 1 + (int)(self ? task_choice(3) : 0);
    for(g_team_num = 0; g_team_num < g_league; ++g_team_num) fn(data);
    g_league   = l;
    g_team_num = t;
}
HOOK void GOMP_task_reduction_remap(size_t cnt, size_t cntorig, void** ptrs)
{
    need_self();
    uintptr_t* data      = self->task && self->task->group ? self->task->group->reductions : nullptr;
    const uintptr_t me   = (uintptr_t)self->tnum;
    for(size_t i = 0; i < cnt; ++i) {
        const uintptr_t a = (uintptr_t)ptrs[i];
        bool found        = false;
        for(uintptr_t* d = data; d && !found; d = (uintptr_t*)d[4]) {
            for(size_t j = 0; j < d[0] && !found; ++j) {
                uintptr_t* e = d + 7 + j * 3;
                if(e[0] == a) {
                    ptrs[i] = (void*)(d[2] + me * d[1] + e[1]);
                    if(i < cntorig) ptrs[cnt + i] = (void*)e[0];
                    found = true;
                }
            }
            if(!found && a >= d[2] && a < d[6]) {
                const uintptr_t off = (a - d[2]) % d[1];
                ptrs[i]             = (void*)(d[2] + me * d[1] + off);
                for(size_t j = 0; i < cntorig && j < d[0]; ++j)
                    if(d[7 + j * 3 + 1] == off) ptrs[cnt + i] = (void*)d[7 + j * 3];
                found = true;
            }
        }
        if(!found) {
            fprintf(stderr, "task reduction of an unknown variable\n");
            abort();
        }
    }
}
HOOK unsigned GOMP_parallel_reductions(void (*fn)(void*), void* d, unsigned n, unsigned)
{
    need_self();
    const int size  = team_size(n);
    TaskGroup* g    = (TaskGroup*)raw_zero(sizeof(TaskGroup));
    uintptr_t* data = *(uintptr_t**)d;
    reduction_register(data, nullptr, size);
    g->reductions = data;
    TeamCtx* c    = team_start(fn, d, size, g);
    fn(d);
    team_end(c);
    arena_free(g);
    return (unsigned)size;
}
HOOK void GOMP_taskloop_ull(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long as,
                            long aa, unsigned f, unsigned long n, int p, unsigned long long s,
                            unsigned long long e, unsigned long long st)
{
    GOMP_taskloop(fn, data, cpyfn, as, aa, f, n, p, (long)s, (long)e, (long)st);
}

HOOK int omp_get_thread_num() noexcept { return self ? self->tnum : 0; }
HOOK int omp_get_num_threads() noexcept { return self ? self->team->n : 1; }
HOOK int omp_get_max_threads() noexcept { return self ? icv().nthreads : g_max_threads; }
HOOK int omp_get_num_procs() noexcept { return 8; }
HOOK int omp_get_thread_limit() noexcept { return 1024; }
HOOK int omp_in_parallel() noexcept { return self ? self->team->active_level > 0 : 0; }
HOOK int omp_get_level() noexcept { return self ? self->team->level : 0; }
HOOK int omp_get_active_level() noexcept { return self ? self->team->active_level : 0; }
HOOK int omp_get_ancestor_thread_num(int l) noexcept
{
    if(!self) return l == 0 ? 0 : -1;
    if(l < 0 || l > self->team->level) return -1;
    int tn  = self->tnum;
    Team* t = self->team;
    while(t->level > l) {
        tn = t->parent_tnum;
        t  = t->parent;
    }
    return tn;
}
HOOK int omp_get_team_size(int l) noexcept
{
    if(!self) return l == 0 ? 1 : -1;
    if(l < 0 || l > self->team->level) return -1;
    Team* t = self->team;
    while(t->level > l) t = t->parent;
    return t->n;
}
HOOK void omp_set_num_threads(int n) noexcept
{
    if(self)
        icv().nthreads = n < 1 ? 1 : n;
}
HOOK void omp_set_dynamic(int v) noexcept
{
    if(self) icv().dyn = !!v;
}
HOOK int omp_get_dynamic() noexcept { return self ? icv().dyn : 0; }
HOOK void omp_set_nested(int v) noexcept
{
    if(self) icv().nested = !!v;
}
HOOK int omp_get_nested() noexcept { return self ? icv().nested : 0; }
HOOK void omp_set_max_active_levels(int n) noexcept { g_max_levels = n; }
HOOK int omp_get_max_active_levels() noexcept { return g_max_levels; }
HOOK int omp_get_supported_active_levels() noexcept { return 255; }
HOOK void omp_set_schedule(omp_sched_t k, int c) noexcept
{
    if(self) {
        icv().sched_kind  = (int)k & 7;
        icv().sched_chunk = c;
    }
}
HOOK void omp_get_schedule(omp_sched_t* k, int* c) noexcept
{
    *k = (omp_sched_t)(self ? icv().sched_kind : 1);
    *c = self ? icv().sched_chunk : 0;
}
HOOK int omp_in_final() noexcept { return self && self->task && self->task->final; }
HOOK int omp_in_explicit_task() noexcept { return self && self->task && self->task->explicit_; }
HOOK int omp_get_max_task_priority() noexcept { return 0; }
HOOK void* omp_alloc(size_t n, omp_allocator_handle_t) noexcept { return malloc(n); }
HOOK void* omp_calloc(size_t n, size_t k, omp_allocator_handle_t) noexcept { return calloc(n, k); }
HOOK void omp_free(void* p, omp_allocator_handle_t) noexcept { free(p); }
HOOK int omp_get_cancellation() noexcept { return 0; }
HOOK int omp_get_num_teams() noexcept { return g_league; }
HOOK int omp_get_team_num() noexcept { return g_team_num; }
HOOK int omp_get_num_devices() noexcept { return 0; }
HOOK int omp_get_default_device() noexcept { return 0; }
HOOK int omp_get_initial_device() noexcept { return 0; }
HOOK int omp_is_initial_device() noexcept { return 1; }
HOOK omp_proc_bind_t omp_get_proc_bind() noexcept { return omp_proc_bind_false; }
HOOK int omp_get_num_places() noexcept { return 0; }
HOOK void omp_init_lock(omp_lock_t*) noexcept {}
HOOK void omp_destroy_lock(omp_lock_t*) noexcept {}
HOOK void omp_set_lock(omp_lock_t* l) noexcept { if(self) lock(l); }
HOOK void omp_unset_lock(omp_lock_t* l) noexcept { if(self) unlock(l); }
HOOK int omp_test_lock(omp_lock_t* l) noexcept { return self ? trylock(l) : 1; }
HOOK void omp_init_nest_lock(omp_nest_lock_t*) noexcept {}
HOOK void omp_destroy_nest_lock(omp_nest_lock_t*) noexcept {}
HOOK void omp_set_nest_lock(omp_nest_lock_t* l) noexcept { if(self) lock(l, true); }
HOOK void omp_unset_nest_lock(omp_nest_lock_t* l) noexcept { if(self) unlock(l); }
HOOK int omp_test_nest_lock(omp_nest_lock_t* l) noexcept { return self ? trylock(l, true) : 1; }

// ====================================================== pthread, static init
HOOK int __cxa_thread_atexit(void (*fn)(void*), void* obj, void* dso) noexcept
{
    if(self && !self->pooled && self->start) {
        TlsDtor* d  = (TlsDtor*)raw_zero(sizeof(TlsDtor));
        *d          = TlsDtor{fn, obj, self->dtors};
        self->dtors = d;
        return 0;
    }
    if(self && self->pooled) return 0; // these threads live as long as the process
    return __cxa_thread_atexit_impl(fn, obj, dso);
}
namespace sim
{
    int (*real_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    static int (*real_pthread_join)(pthread_t, void**);
    static int (*real_pthread_detach)(pthread_t);
    static int (*real_mutex_lock)(pthread_mutex_t*);
    static int (*real_mutex_trylock)(pthread_mutex_t*);
    static int (*real_mutex_unlock)(pthread_mutex_t*);
    static int (*real_cond_wait)(pthread_cond_t*, pthread_mutex_t*);
    static int (*real_cond_signal)(pthread_cond_t*);
    static int (*real_cond_broadcast)(pthread_cond_t*);
    static int (*real_pthread_once)(pthread_once_t*, void (*)());
    static int (*real_cond_timedwait)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
    static int (*real_cond_clockwait)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);

    static void* user_main(void* arg)
    {
        Thread* t = (Thread*)arg;
        self      = t;
        fill_stack();
        park(t);
        t->ret = t->start(t->data);
        while(t->dtors) { // destructors of thread-local objects
            TlsDtor* d = t->dtors;
            t->dtors   = d->next;
            d->fn(d->obj);
            arena_free(d);
        }
        set_state(t, T_DONE);
        wake(t);
        Thread* to = forced_choice();
        self = nullptr; // the rest of this thread is no longer part of the simulation
        hand_over_from(t, to);
        return t->ret;
    }
    static Thread* find_pt(pthread_t p)
    {
        for(int i = 0; i < g_nthreads; ++i)
            if(!g_threads[i].pooled && g_threads[i].start && pthread_equal(g_threads[i].pt, p)
               && !g_threads[i].joined)
                return &g_threads[i];
        return nullptr;
    }
    static Team g_user_root[64];
    static int g_nuser;
} // namespace sim

HOOK int pthread_create(pthread_t* pt, const pthread_attr_t* at, void* (*fn)(void*), void* arg) noexcept
{
    if(!real_pthread_create) rt_init();
    if(!self) return real_pthread_create(pt, at, fn, arg);
    Thread* t  = nullptr;
    Team* root = nullptr;
    for(int i = 1; i < g_nthreads && !t; ++i) // a slot whose thread is gone
        if(!g_threads[i].pooled && g_threads[i].joined && g_threads[i].state == T_DONE) t = &g_threads[i];
    if(t) {
        root      = t->root;
        t->joined = t->detached = t->stalled = false;
        t->dtors  = nullptr;
        t->ret    = nullptr;
        t->ws_seq = 0;
        t->work   = nullptr;
        t->tnum   = 0;
    } else {
        t = new_slot();
        if(g_nuser >= 64) violation("internal", "too many user threads");
        root    = &g_user_root[g_nuser++];
        t->root = root;
    }
    implicit_task(t, &t->implicit, nullptr);
    t->start  = fn;
    t->data   = arg;
    memset(root, 0, sizeof *root);
    root->n      = 1;
    root->master = t;
    root->th[0]  = t;
    t->team      = root;
    t->icv       = root_icv();
    pthread_attr_t a2;
    pthread_attr_init(&a2);
    pthread_attr_setstacksize(&a2, 2 << 20);
    int r = real_pthread_create(&t->pt, &a2, user_main, t);
    pthread_attr_destroy(&a2);
    if(r) return r;
    *pt = t->pt;
    release_start(t);
    ++g_epoch;
    g_cells_used = 0;
    sync_point();
    return 0;
}
HOOK int pthread_join(pthread_t p, void** ret)
{
    if(!real_pthread_join) rt_init();
    if(!self) return real_pthread_join(p, ret);
    Thread* t = find_pt(p);
    if(!t) return real_pthread_join(p, ret);
    while(t->state != T_DONE) block_on(t);
    t->joined = true;
    if(ret) *ret = t->ret;
    real_pthread_join(p, nullptr);
    return 0;
}
HOOK int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
    if(!self) {
        if(!real_mutex_lock) rt_init();
        return real_mutex_lock(m);
    }
    lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP);
    return 0;
}
HOOK int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
    if(!self) {
        if(!real_mutex_trylock) rt_init();
        return real_mutex_trylock(m);
    }
    return trylock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) ? 0 : EBUSY;
}
HOOK int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
    if(!self) {
        if(!real_mutex_unlock) rt_init();
        return real_mutex_unlock(m);
    }
    unlock(m);
    return 0;
}
HOOK int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if(!self) {
        if(!real_cond_wait) rt_init();
        return real_cond_wait(c, m);
    }
    Lk* l    = lock_of(m);
    int d    = l->depth;
    l->owner = nullptr;
    l->depth = 0;
    wake(l);
    block_on(c);
    while(l->owner) block_on(l);
    l->owner = self;
    l->depth = d;
    return 0;
}
HOOK int pthread_cond_signal(pthread_cond_t* c) noexcept
{
    if(!self) {
        if(!real_cond_signal) rt_init();
        return real_cond_signal(c);
    }
    wake(c); // spurious wake-ups of the others are allowed
    sync_point();
    return 0;
}
HOOK int pthread_cond_broadcast(pthread_cond_t* c) noexcept
{
    if(!self) {
        if(!real_cond_broadcast) rt_init();
        return real_cond_broadcast(c);
    }
    wake(c);
    sync_point();
    return 0;
}
HOOK int pthread_once(pthread_once_t* o, void (*fn)())
{
    if(!self) {
        if(!real_pthread_once) rt_init();
        return real_pthread_once(o, fn);
    }
    // 0: not run, 1: in progress, 2: done
    int* st = (int*)o;
    while(*st == 1) block_on(o);
    if(*st == 2) return 0;
    *st = 1;
    try {
        fn();
    } catch(...) { // the next caller tries again
        *st = 0;
        wake(o);
        throw;
    }
    *st = 2;
    wake(o);
    sync_point();
    return 0;
}
HOOK int pthread_detach(pthread_t p) noexcept
{
    if(!real_pthread_detach) rt_init();
    if(self)
        if(Thread* t = find_pt(p)) t->joined = t->detached = true;
    return real_pthread_detach(p);
}
// Waiting for a point in time: the clock goes on by a millisecond while others can run, and jumps there if none can.
static bool await_time(clockid_t clock, const struct timespec* until)
{
    struct timespec ts;
    clock_gettime(clock, &ts);
    const double left = double(until->tv_sec - ts.tv_sec) * 1e9 + double(until->tv_nsec - ts.tv_nsec);
    const int64_t by  = g_runnable > 1 || left < 1e6 ? 1000000 : left > 1e17 ? (int64_t)1e17 : (int64_t)left + 1;
    g_mono_off += by;
    g_real_off += by;
    clock_gettime(clock, &ts);
    yield_point();
    return ts.tv_sec > until->tv_sec || (ts.tv_sec == until->tv_sec && ts.tv_nsec >= until->tv_nsec);
}
// a wait with a time limit: other threads run, the clock goes on, and the wait ends, at times too early
static int timed_wait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clock, const struct timespec* until)
{
    (void)c;
    Lk* l    = lock_of(m);
    int d    = l->depth;
    l->owner = nullptr;
    l->depth = 0;
    wake(l);
    const bool late = await_time(clock, until);
    while(l->owner) block_on(l);
    l->owner = self;
    l->depth = d;
    return late ? ETIMEDOUT : 0;
}
HOOK int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t)
{
    if(!real_cond_timedwait) rt_init();
    return self ? timed_wait(c, m, CLOCK_REALTIME, t) : real_cond_timedwait(c, m, t);
}
HOOK int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t)
{
    if(!real_cond_clockwait) rt_init();
    return self ? timed_wait(c, m, k, t) : real_cond_clockwait(c, m, k, t);
}
namespace sim
{
    // reader-writer locks: the entry of the table is held by the writer or counts the readers
    static bool rw_try(const void* k, bool write)
    {
        Lk* l = lock_of(k);
        if(l->owner || (write && l->depth)) return false;
        if(write) l->owner = self;
        ++l->depth;
        return true;
    }
    static void rw_lock(const void* k, bool write)
    {
        sync_point();
        while(!rw_try(k, write)) block_on(lock_of(k));
    }
    static void rw_unlock(const void* k)
    {
        Lk* l = lock_of(k);
        --l->depth;
        l->owner = nullptr;
        wake(l);
        sync_point();
    }
} // namespace sim
HOOK int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept
{
    if(self) rw_lock(l, false);
    return 0;
}
HOOK int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept
{
    if(self) rw_lock(l, true);
    return 0;
}
HOOK int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept
{
    sync_point();
    return !self || rw_try(l, false) ? 0 : EBUSY;
}
HOOK int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept
{
    sync_point();
    return !self || rw_try(l, true) ? 0 : EBUSY;
}
HOOK int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept
{
    if(self) rw_unlock(l);
    return 0;
}
// locks with a time limit
template <class Try>
static int timed_lock(clockid_t k, const struct timespec* t, Try attempt)
{
    while(!attempt())
        if(await_time(k, t)) return attempt() ? 0 : ETIMEDOUT;
    return 0;
}
HOOK int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t k, const struct timespec* t) noexcept
{
    return !self ? pthread_mutex_lock(m) : timed_lock(k, t, [m] { return pthread_mutex_trylock(m) == 0; });
}
HOOK int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) noexcept
{
    return pthread_mutex_clocklock(m, CLOCK_REALTIME, t);
}
HOOK int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t k, const struct timespec* t) noexcept
{
    return !self ? 0 : timed_lock(k, t, [l] { return pthread_rwlock_tryrdlock(l) == 0; });
}
HOOK int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t k, const struct timespec* t) noexcept
{
    return !self ? 0 : timed_lock(k, t, [l] { return pthread_rwlock_trywrlock(l) == 0; });
}
HOOK int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const struct timespec* t) noexcept
{
    return pthread_rwlock_clockrdlock(l, CLOCK_REALTIME, t);
}
HOOK int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const struct timespec* t) noexcept
{
    return pthread_rwlock_clockwrlock(l, CLOCK_REALTIME, t);
}
HOOK int pthread_spin_lock(pthread_spinlock_t* l) noexcept
{
    if(self) lock((const void*)l);
    return 0;
}
HOOK int pthread_spin_trylock(pthread_spinlock_t* l) noexcept { return !self || trylock((const void*)l) ? 0 : EBUSY; }
HOOK int pthread_spin_unlock(pthread_spinlock_t* l) noexcept
{
    if(self) unlock((const void*)l);
    return 0;
}
// barriers and semaphores, kept in their own memory
HOOK int pthread_barrier_init(pthread_barrier_t* b, const pthread_barrierattr_t*, unsigned n) noexcept
{
    unsigned* x = (unsigned*)b;
    x[0]        = n;
    x[1] = x[2] = 0;
    return n ? 0 : EINVAL;
}
HOOK int pthread_barrier_destroy(pthread_barrier_t*) noexcept { return 0; }
HOOK int pthread_barrier_wait(pthread_barrier_t* b) noexcept
{
    if(!self) return PTHREAD_BARRIER_SERIAL_THREAD;
    sync_point();
    unsigned* x        = (unsigned*)b;
    const unsigned gen = x[2];
    if(++x[1] == x[0]) {
        x[1] = 0;
        ++x[2];
        wake(x);
        sync_point();
        return PTHREAD_BARRIER_SERIAL_THREAD;
    }
    while(x[2] == gen) block_on(x);
    return 0;
}
HOOK int sem_init(sem_t* m, int, unsigned n) noexcept
{
    *(int*)m = (int)n;
    return 0;
}
HOOK int sem_destroy(sem_t*) noexcept { return 0; }
HOOK int sem_post(sem_t* m) noexcept
{
    ++*(int*)m;
    if(self) {
        wake(m);
        sync_point();
    }
    return 0;
}
HOOK int sem_trywait(sem_t* m) noexcept
{
    if(self) sync_point();
    if(*(int*)m > 0) {
        --*(int*)m;
        return 0;
    }
    errno = EAGAIN;
    return -1;
}
HOOK int sem_wait(sem_t* m)
{
    if(self) sync_point();
    while(*(int*)m <= 0) {
        if(!self) return 0;
        block_on(m);
    }
    --*(int*)m;
    return 0;
}
HOOK int sem_clockwait(sem_t* m, clockid_t k, const struct timespec* t)
{
    if(!self || !timed_lock(k, t, [m] { return sem_trywait(m) == 0; })) return 0;
    errno = ETIMEDOUT;
    return -1;
}
HOOK int sem_timedwait(sem_t* m, const struct timespec* t) { return sem_clockwait(m, CLOCK_REALTIME, t); }
HOOK int sem_getvalue(sem_t* m, int* v) noexcept
{
    *v = *(int*)m;
    return 0;
}
// futures wait by a system call
HOOK long syscall(long n, ...) noexcept
{
    va_list ap;
    va_start(ap, n);
    long a[6];
    for(auto& x : a) x = va_arg(ap, long);
    va_end(ap);
    if(self && n == SYS_futex) {
        const int op = (int)a[1] & FUTEX_CMD_MASK;
        int* addr    = (int*)a[0];
        if(op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            sync_point();
            if(*(volatile int*)addr != (int)a[2]) {
                errno = EAGAIN;
                return -1;
            }
            if(a[3]) { // with a time limit
                struct timespec until = *(const struct timespec*)a[3];
                clockid_t clock       = (int)a[1] & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC;
                if(op == FUTEX_WAIT) { // relative
                    struct timespec ts;
                    clock_gettime(clock, &ts);
                    until.tv_sec += ts.tv_sec;
                    if((until.tv_nsec += ts.tv_nsec) >= 1000000000) {
                        until.tv_nsec -= 1000000000;
                        ++until.tv_sec;
                    }
                }
                if(!await_time(clock, &until)) return 0;
                errno = ETIMEDOUT;
                return -1;
            }
            block_on(addr);
            return 0;
        }
        if(op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            wake(addr);
            sync_point();
            return 1;
        }
    }
    const long r = raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if(r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

namespace sim
{
    struct Guard {
        void* g;
        Thread* t;
    };
    static Guard g_guards[256];
    static int g_nguards;
} // namespace sim
HOOK int __cxa_guard_acquire(unsigned long long* g)
{
    char* b = (char*)g;
    for(;;) {
        if(*b) return 0;
        int i;
        for(i = 0; i < g_nguards; ++i)
            if(g_guards[i].g == g) break;
        if(i == g_nguards) break;
        if(!self || g_guards[i].t == self) {
            fprintf(stderr, "recursive static initialisation\n");
            abort();
        }
        block_on(g);
    }
    if(g_nguards < 256) g_guards[g_nguards++] = Guard{g, self};
    return 1;
}
static void guard_drop(unsigned long long* g)
{
    for(int i = 0; i < g_nguards; ++i)
        if(g_guards[i].g == g) {
            g_guards[i] = g_guards[--g_nguards];
            break;
        }
    if(self) wake(g);
}
HOOK void __cxa_guard_release(unsigned long long* g)
{
    *(char*)g = 1;
    guard_drop(g);
    if(self) sync_point();
}
HOOK void __cxa_guard_abort(unsigned long long* g) { guard_drop(g); }

// ======================================================================= heap
// All memory comes from three arenas at fixed addresses, so that the same run finds the same memory at the same
// place with the same contents whatever happened before in the process that started it, even when the code under
// test reads or writes where it must not: D for what is allocated before a run starts, R for the code under test,
// G for what the C library allocates during a run.
extern "C" char __executable_start, etext;
namespace sim
{
    struct ArenaHdr { // directly before a block
        uint32_t cls;
        uint32_t off; // from the start of the piece to the block
        uint64_t magic;
    };
    static const uint64_t RAW = 0x4A11A7E5F00DB10Cull;
    struct Arena {
        char* base;
        size_t size, used;
        int spin;
        void* list[256];
    };
    static Arena g_D{(char*)0x200000000000, (size_t)8 << 30, 0, 0, {}}, g_R{(char*)0x300000000000, (size_t)8 << 30, 0, 0, {}},
        g_G{(char*)0x380000000000, (size_t)8 << 30, 0, 0, {}};
    static bool g_arenas;
    static void arena_init()
    {
        g_arenas = true;
        for(Arena* a : {&g_D, &g_R, &g_G}) {
            void* p = mmap(a->base, a->size, PROT_READ | PROT_WRITE,
                           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
            if(p != a->base) {
                static const char m[] = "sim: cannot reserve address space for the heap\n";
                raw_syscall(SYS_write, 2, (long)m, sizeof m - 1);
                _exit(99);
            }
        }
    }
    static size_t class_size(uint32_t c) { return ((size_t)4 + c % 4) << (c / 4 + 3); } // 32, 40, 48, 56, 64, 80, ...
    static uint32_t class_of(size_t n)
    {
        uint32_t c = 0;
        if(n > 4096) c = 4 * (uint32_t)(60 - __builtin_clzll(n) - 2); // class_size(c) <= n
        while(class_size(c) < n) ++c;
        return c;
    }
    static void* arena_alloc(Arena& a, size_t n, size_t align, bool* fresh)
    {
        if(!g_arenas) arena_init();
        if(n > (size_t)1 << 34) return nullptr;
        const size_t extra = align > 16 ? align : 0;
        const uint32_t c   = class_of(n + sizeof(ArenaHdr) + extra);
        const size_t sz    = (class_size(c) + 15) & ~(size_t)15;
        while(__atomic_exchange_n(&a.spin, 1, __ATOMIC_ACQUIRE)) {
        }
        char* piece = (char*)a.list[c];
        if(piece) {
            uintptr_t* l = (uintptr_t*)piece;
            if(l[1] != (l[0] ^ RAW)) { // written after it was freed
                static const char m[] = "heap corruption: freed heap memory was written\n";
                raw_syscall(SYS_write, 2, (long)m, sizeof m - 1);
                abort();
            }
            a.list[c] = (void*)l[0];
            if(fresh) *fresh = false;
        } else if(a.used + sz <= a.size) {
            piece = a.base + a.used;
            a.used += sz;
            if(fresh) *fresh = true;
        }
        __atomic_store_n(&a.spin, 0, __ATOMIC_RELEASE);
        if(!piece) return nullptr;
        char* p = piece + sizeof(ArenaHdr);
        if(extra) p = (char*)(((uintptr_t)p + align - 1) & ~(uintptr_t)(align - 1));
        ArenaHdr* h = (ArenaHdr*)p - 1;
        h->cls      = c;
        h->off      = (uint32_t)(p - piece);
        h->magic    = RAW;
        return p;
    }
    static Arena* arena_of(const void* p)
    {
        for(Arena* a : {&g_D, &g_R, &g_G})
            if((const char*)p >= a->base && (const char*)p < a->base + a->size) return a;
        return nullptr;
    }
    static bool is_raw(const void* p) { return arena_of(p) && ((const ArenaHdr*)p - 1)->magic == RAW; }
    static void arena_free(void* p)
    {
        if(!p) return;
        Arena* a = arena_of(p);
        if(!a || ((ArenaHdr*)p - 1)->magic != RAW || ((ArenaHdr*)p - 1)->cls >= 256) {
            static const char m[] = "heap corruption: free of an invalid pointer\n";
            raw_syscall(SYS_write, 2, (long)m, sizeof m - 1);
            abort();
        }
        ArenaHdr* h   = (ArenaHdr*)p - 1;
        uint32_t c    = h->cls;
        uintptr_t* l  = (uintptr_t*)((char*)p - h->off);
        h->magic      = 0;
        while(__atomic_exchange_n(&a->spin, 1, __ATOMIC_ACQUIRE)) {
        }
        l[0]       = (uintptr_t)a->list[c];
        l[1]       = l[0] ^ RAW;
        a->list[c] = l;
        __atomic_store_n(&a->spin, 0, __ATOMIC_RELEASE);
    }
    static size_t arena_size(const void* p)
    {
        const ArenaHdr* h = (const ArenaHdr*)p - 1;
        return ((class_size(h->cls) + 15) & ~(size_t)15) - h->off;
    }
    void* raw_zero(size_t n)
    {
        bool fresh = false;
        void* p    = arena_alloc(g_active ? g_G : g_D, n, 16, &fresh);
        if(!p) abort();
        if(!fresh) memset(p, 0, n);
        return p;
    }
    static void* raw_alloc(size_t n, size_t align = 16, bool* fresh = nullptr) { return arena_alloc(g_active ? g_G : g_D, n, align, fresh); }

    struct Blk {
        uint64_t magic, serial;
        size_t size;
        Blk *prev, *next;
        uint64_t canary;
    };
    static_assert(sizeof(Blk) % 16 == 0, "alignment");
    static const uint64_t LIVE = 0x51D3A110CA7EDB10ull, DEAD = 0xDEADB10C0F0F0F0Full;
    static Blk g_list{0, 0, 0, &g_list, &g_list, 0};
    static uint64_t g_serial, g_allocs, g_fail_at, g_fail_count;
    static bool g_heap_on, g_fault_fired, g_reuse;
    static Blk* g_quar[1024];
    static int g_qpos;
    static const size_t QMAX = 1 << 16; // larger blocks are not quarantined

    static void heap_bad(const char* what, Blk* b)
    {
        char m[160];
        snprintf(m, sizeof m, "%s (block of %zu bytes)", what, b ? b->size : 0);
        if(g_active) {
            if(g_proc != 0) { // in a simulated process: die like glibc does
                fprintf(stderr, "heap corruption: %s\n", m);
                abort();
            }
            violation("heap", m);
        }
        fprintf(stderr, "heap: %s\n", m);
        abort();
    }
    static void check_block(Blk* b)
    {
        uint64_t c;
        memcpy(&c, (char*)(b + 1) + b->size, 8);
        if(b->canary != ~LIVE || c != (LIVE ^ b->serial)) heap_bad("memory outside a heap block was overwritten", b);
    }
    static void check_quarantined(Blk* b)
    {
        const unsigned char* p = (const unsigned char*)(b + 1);
        for(size_t i = 0; i < b->size; ++i)
            if(p[i] != 0xDF) heap_bad("freed heap memory was written", b);
    }
    // output streams swallow exceptions of the text buffer they write to: in whole programs, whose
    // results tell whether memory ran out, its growth never fails
    static thread_local int t_growing = 0;
    static void* heap_alloc(size_t n)
    {
        if(g_active && self && g_heap_on && !(t_growing && g_proc != 0)) {
            ++g_allocs;
            if(g_fail_at && g_allocs >= g_fail_at && g_allocs - g_fail_at < g_fail_count
               && (self->team->level == 0 || g_proc != 0)) { // a process may end in a parallel region
                g_fault_fired = true;
                ++S->fired[F_BADALLOC];
                ++S->p_fired[F_BADALLOC];
                return nullptr;
            }
        }
        if(n > (size_t)1 << 34) return nullptr;
        Blk* b = (Blk*)arena_alloc(g_active ? g_R : g_D, sizeof(Blk) + n + 8, 16, nullptr);
        if(!b) return nullptr;
        b->magic   = LIVE;
        b->serial  = ++g_serial;
        b->size    = n;
        b->canary  = ~LIVE;
        b->prev    = g_list.prev;
        b->next    = &g_list;
        b->prev->next = b;
        g_list.prev   = b;
        uint64_t c = LIVE ^ b->serial;
        memcpy((char*)(b + 1) + n, &c, 8);
        if(g_active) memset(b + 1, g_fill, n);
        return b + 1;
    }
    static void heap_free(void* p)
    {
        if(!p) return;
        Blk* b = (Blk*)p - 1;
        if(b->magic == DEAD) heap_bad("double free", b);
        if(b->magic != LIVE) heap_bad("free of an invalid pointer or overwritten header", nullptr);
        check_block(b);
        b->prev->next = b->next;
        b->next->prev = b->prev;
        b->magic      = DEAD;
        if(!g_active) {
            arena_free(b);
            return;
        }
        memset(p, 0xDF, b->size);
        if(b->size > QMAX || g_reuse) {
            b->magic = 0;
            arena_free(b);
            return;
        }
        Blk* old = g_quar[g_qpos];
        if(old) {
            check_quarantined(old);
            old->magic = 0;
            arena_free(old);
        }
        g_quar[g_qpos] = b;
        g_qpos         = (g_qpos + 1) & 1023;
    }
} // namespace sim
static int grow_text(const char* sym, void* self_, int c)
{
    struct Growing {
        Growing() { ++t_growing; }
        ~Growing() { --t_growing; }
    } g;
    auto real = (int (*)(void*, int))dlsym(RTLD_NEXT, sym);
    return real(self_, c);
}
#define TEXT_BUFFER(sym) \
    HOOK int sym(void* self_, int c) { return grow_text(#sym, self_, c); }
TEXT_BUFFER(_ZNSt7__cxx1115basic_stringbufIcSt11char_traitsIcESaIcEE8overflowEi)
TEXT_BUFFER(_ZNSt15basic_stringbufIcSt11char_traitsIcESaIcEE8overflowEi)
static void* op_new(size_t n)
{
    void* p = heap_alloc(n);
    if(!p) throw std::bad_alloc();
    return p;
}
void* operator new(size_t n) { return op_new(n); }
void* operator new[](size_t n) { return op_new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return heap_alloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return heap_alloc(n); }
void operator delete(void* p) noexcept { heap_free(p); }
void operator delete[](void* p) noexcept { heap_free(p); }
void operator delete(void* p, size_t) noexcept { heap_free(p); }
void operator delete[](void* p, size_t) noexcept { heap_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { heap_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { heap_free(p); }

// malloc and its kin: calls from the code under test are treated like operator new, all others get plain memory
static bool by_program(const void* ret)
{
    return g_active && self && (const char*)ret >= &__executable_start && (const char*)ret < &etext;
}
static size_t block_size(const void* p) { return is_raw(p) ? arena_size(p) : ((const Blk*)p - 1)->size; }
static void any_free(void* p)
{
    if(!p) return;
    if(is_raw(p))
        arena_free(p);
    else
        heap_free(p);
}
HOOK void* malloc(size_t n)
{
    void* p = by_program(__builtin_return_address(0)) ? heap_alloc(n) : raw_alloc(n);
    if(!p) errno = ENOMEM;
    return p;
}
HOOK void* calloc(size_t a, size_t b)
{
    size_t n;
    if(__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return nullptr;
    }
    bool fresh = false;
    void* p    = by_program(__builtin_return_address(0)) ? heap_alloc(n) : raw_alloc(n, 16, &fresh);
    if(!p) {
        errno = ENOMEM;
        return nullptr;
    }
    if(!fresh) memset(p, 0, n);
    return p;
}
HOOK void* realloc(void* o, size_t n)
{
    void* p = by_program(__builtin_return_address(0)) ? heap_alloc(n) : raw_alloc(n);
    if(!p) {
        errno = ENOMEM;
        return nullptr;
    }
    if(o) {
        const size_t m = block_size(o);
        memcpy(p, o, m < n ? m : n);
        any_free(o);
    }
    return p;
}
HOOK void free(void* p) { any_free(p); }
HOOK void cfree(void* p) { any_free(p); }
HOOK void* memalign(size_t al, size_t n)
{
    void* p = raw_alloc(n, al);
    if(!p) errno = ENOMEM;
    return p;
}
HOOK void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
HOOK int posix_memalign(void** out, size_t al, size_t n)
{
    void* p = raw_alloc(n, al);
    if(!p) return ENOMEM;
    *out = p;
    return 0;
}
HOOK void* valloc(size_t n) { return memalign(4096, n); }
HOOK void* pvalloc(size_t n) { return memalign(4096, (n + 4095) & ~(size_t)4095); }
HOOK size_t malloc_usable_size(void* p) { return p ? block_size(p) : 0; }

// ============================================ files, clock, environment, host
namespace sim
{
    static FILE* (*real_fopen)(const char*, const char*);
    static FILE* (*real_fopen64)(const char*, const char*);
    static int (*real_fclose)(FILE*);
    static int (*real_open)(const char*, int, ...);
    static int (*real_close)(int);
    static ssize_t (*real_write)(int, const void*, size_t);
    static ssize_t (*real_writev)(int, const struct iovec*, int);
    static ssize_t (*real_read)(int, void*, size_t);
    static int (*real_rename)(const char*, const char*);
    static int (*real_clock_gettime)(clockid_t, struct timespec*);
    static char* (*real_getenv)(const char*);
    static int (*real_gethostname)(char*, size_t);

    static bool g_io_on;
    static bool g_tracked[1024];
    static uint64_t g_ops[IO_NOPS];
    static IoFault g_plan[32];
    static int g_nplan;
    static const ProcSpec* g_spec;

    static void fired(int k)
    {
        ++S->fired[k];
        ++S->p_fired[k];
    }
    static void crash_now()
    {
        fired(F_CRASH);
        S->p_crashed = 1;
        for(int i = 0; i < IO_NOPS; ++i) S->p_ops[i] = g_ops[i];
        die_now(CRASH_EXIT);
    }
    // a point at which another process may go on instead of this one
    static void hand_over()
    {
        if(g_proc != 0 && S->p_quantum && --S->p_quantum == 0) syscall(SYS_tgkill, getpid(), syscall(SYS_gettid), SIGSTOP);
    }
    // next operation of a class: which action applies?
    static int io_action(int op, int64_t* arg)
    {
        hand_over();
        uint64_t n = ++g_ops[op];
        if(g_proc != 0) S->p_ops[op] = n;
        hmix(0x10000ull * (op + 1) + n);
        if(++g_steps > g_budget) hang();
        for(int i = 0; i < g_nplan; ++i) {
            IoFault& f = g_plan[i];
            if(f.op != op || f.act == A_NONE) continue;
            if(f.at == n || (f.act == A_ERR_FOREVER && n >= f.at)) {
                *arg  = f.arg;
                int a = f.act;
                if(f.act != A_ERR_FOREVER) f.act = A_NONE;
                return a;
            }
        }
        return A_NONE;
    }
    static bool path_in_sim(const char* p)
    {
        if(p[0] != '/') return true;
        return g_spec && g_spec->simulate_stdout && (!strcmp(p, "/dev/stdout") || !strcmp(p, "/dev/fd/1") || !strcmp(p, "/proc/self/fd/1"));
    }
    static uint64_t g_clock_calls;
    // clock offsets are declared with the scheduler
} // namespace sim

static int open_fault(const char* path)
{
    if(!self || !g_io_on || !path_in_sim(path)) return 0;
    int64_t arg;
    int a = io_action(IO_OPEN, &arg);
    switch(a) {
        case A_ERR:
        case A_ERR_FOREVER:
            fired(F_OPEN_FAIL);
            errno = (int)arg;
            return -1;
        case A_EINTR:
            fired(F_OPEN_FAIL);
            errno = EMFILE;
            return -1;
        case A_CRASH:
        case A_TORN: crash_now();
    }
    return 1;
}
static bool g_islog[1024];
static void track(int fd, const char* path)
{
    g_tracked[fd] = true;
    size_t n      = strlen(path);
    g_islog[fd]   = n >= 4 && !strcmp(path + n - 4, ".log");
}
// The C library reads and writes its streams by system calls of its own: a stream over a simulated file is one that reads and
// writes in the same manner, but by way of the functions here.
static FILE* g_stream[1024];
static int g_nstream; // beyond the last one
static ssize_t stream_write(void* c, const char* b, size_t n)
{
    size_t done = 0;
    while(done < n) {
        const ssize_t k = write((int)(intptr_t)c, b + done, n - done);
        if(k < 0 && errno == EINTR) continue; // there are no signal handlers that would let it through
        if(k < 0) break;
        done += (size_t)k;
    }
    return (ssize_t)done;
}
static ssize_t stream_read(void* c, char* b, size_t n)
{
    for(;;) {
        const ssize_t k = read((int)(intptr_t)c, b, n);
        if(k >= 0 || errno != EINTR) return k;
    }
}
static int stream_seek(void* c, off64_t* o, int whence)
{
    const off64_t r = lseek64((int)(intptr_t)c, *o, whence);
    if(r < 0) return -1;
    *o = r;
    return 0;
}
static int stream_close(void* c)
{
    g_stream[(intptr_t)c] = nullptr;
    return real_close((int)(intptr_t)c);
}
static FILE* stream_over(int fd, const char* mode)
{
    if(fd >= g_nstream) g_nstream = fd + 1;
    return g_stream[fd] = fopencookie((void*)(intptr_t)fd, mode, {stream_read, stream_write, stream_seek, stream_close});
}
static int stream_fd(FILE* f)
{
    if(!f) return -1;
    for(int i = 0; i < g_nstream; ++i)
        if(g_stream[i] == f) return i;
    return -1;
}
HOOK int fileno(FILE* f) noexcept
{
    static int (*real)(FILE*);
    if(!real) real = (int (*)(FILE*))dlsym(RTLD_NEXT, "fileno");
    const int fd = stream_fd(f);
    return fd >= 0 ? fd : real(f);
}
HOOK int fileno_unlocked(FILE* f) noexcept { return fileno(f); }
static FILE* fopen_impl(const char* p, const char* m, bool l)
{
    if(!real_fopen) rt_init();
    const int r = open_fault(p);
    if(r < 0) return nullptr;
    if(r == 0) return l ? real_fopen64(p, m) : real_fopen(p, m);
    int fl = *m == 'r' ? 0 : *m == 'w' ? O_CREAT | O_TRUNC : O_CREAT | O_APPEND;
    fl |= strchr(m, '+') ? O_RDWR : *m == 'r' ? O_RDONLY : O_WRONLY;
    if(strchr(m, 'x')) fl |= O_EXCL;
    if(strchr(m, 'e')) fl |= O_CLOEXEC;
    const int fd = real_open(p, fl, 0666);
    if(fd < 0) return nullptr;
    FILE* f = fd < 1024 ? stream_over(fd, m) : nullptr;
    if(!f) {
        real_close(fd);
        errno = ENOMEM;
        return nullptr;
    }
    track(fd, p);
    return f;
}
HOOK FILE* fopen(const char* p, const char* m) { return fopen_impl(p, m, false); }
HOOK FILE* fopen64(const char* p, const char* m) { return fopen_impl(p, m, true); }
static int open_impl(const char* p, int fl, unsigned mode)
{
    if(!real_open) rt_init();
    int r = open_fault(p);
    if(r < 0) return -1;
    int fd = real_open(p, fl, mode);
    if(fd >= 0 && fd < 1024 && r > 0) track(fd, p);
    return fd;
}
HOOK int open(const char* p, int fl, ...)
{
    va_list ap;
    va_start(ap, fl);
    unsigned m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, unsigned) : 0;
    va_end(ap);
    return open_impl(p, fl, m);
}
HOOK int open64(const char* p, int fl, ...)
{
    va_list ap;
    va_start(ap, fl);
    unsigned m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, unsigned) : 0;
    va_end(ap);
    return open_impl(p, fl, m);
}
static bool tracked(int fd) { return self && g_io_on && fd >= 0 && fd < 1024 && g_tracked[fd]; }
static int close_fault(int fd)
{
    int64_t arg;
    int a = io_action(IO_CLOSE, &arg);
    g_tracked[fd] = false;
    switch(a) {
        case A_ERR:
        case A_ERR_FOREVER: fired(F_CLOSE_FAIL); return (int)arg;
        case A_CRASH:
        case A_TORN: crash_now();
    }
    return 0;
}
HOOK int fclose(FILE* f)
{
    if(!real_fclose) rt_init();
    const int fd = stream_fd(f);
    int e = 0, lost = 0;
    if(tracked(fd)) {
        lost = fflush(f); // its writes come before the end
        const int why = errno;
        e = close_fault(fd);
        if(lost) {
            if(!e) e = why;
            __fpurge(f);
        }
    }
    int r = real_fclose(f);
    if(e) {
        errno = e;
        return EOF;
    }
    return r;
}
HOOK int close(int fd)
{
    if(!real_close) rt_init();
    int e = 0;
    if(tracked(fd)) e = close_fault(fd);
    int r = real_close(fd);
    if(e) {
        errno = e;
        return -1;
    }
    return r;
}
static ssize_t sim_write(int fd, const char* buf, size_t n)
{
    int64_t arg = 0;
    int a       = io_action(g_islog[fd] ? IO_LOG : IO_WRITE, &arg);
    switch(a) {
        case A_ERR:
        case A_ERR_FOREVER:
            fired(arg == ENOSPC ? F_WRITE_NOSPC : F_WRITE_ERR);
            errno = (int)arg;
            return -1;
        case A_EINTR:
            fired(F_EINTR);
            errno = EINTR;
            return -1;
        case A_SHORT: {
            size_t k = n * (size_t)arg / 1000;
            if(k < 1) k = 1;
            if(k < n) fired(F_WRITE_SHORT);
            return real_write(fd, buf, k > n ? n : k);
        }
        case A_CRASH: crash_now(); break;
        case A_TORN: {
            size_t k = n * (size_t)arg / 1000;
            fired(F_WRITE_TORN);
            if(k) (void)!real_write(fd, buf, k);
            crash_now();
        }
    }
    return real_write(fd, buf, n);
}
HOOK ssize_t write(int fd, const void* b, size_t n)
{
    if(!real_write) rt_init();
    if(!tracked(fd)) return real_write(fd, b, n);
    return sim_write(fd, (const char*)b, n);
}
HOOK ssize_t writev(int fd, const struct iovec* v, int c)
{
    if(!real_writev) rt_init();
    if(!tracked(fd)) return real_writev(fd, v, c);
    size_t n = 0;
    for(int i = 0; i < c; ++i) n += v[i].iov_len;
    char* buf = (char*)raw_zero(n + 1);
    size_t o  = 0;
    for(int i = 0; i < c; ++i) {
        memcpy(buf + o, v[i].iov_base, v[i].iov_len);
        o += v[i].iov_len;
    }
    ssize_t r = sim_write(fd, buf, n);
    int e     = errno;
    arena_free(buf);
    errno = e;
    return r;
}
HOOK ssize_t read(int fd, void* b, size_t n)
{
    if(!real_read) rt_init();
    if(!tracked(fd)) return real_read(fd, b, n);
    int64_t arg = 0;
    int a       = io_action(IO_READ, &arg);
    switch(a) {
        case A_ERR:
        case A_ERR_FOREVER:
            fired(F_READ_ERR);
            errno = (int)arg;
            return -1;
        case A_EINTR:
            fired(F_EINTR);
            errno = EINTR;
            return -1;
        case A_SHORT: {
            size_t k = n * (size_t)arg / 1000;
            if(k < 1) k = 1;
            if(k > 64) k = 1 + k % 64;
            fired(F_READ_SHORT);
            return real_read(fd, b, k);
        }
        case A_CRASH:
        case A_TORN: crash_now();
    }
    return real_read(fd, b, n);
}
// changes of directory entries: renaming, removing, truncating
static bool dir_fault(const char* path)
{
    if(!self || !g_io_on || !path_in_sim(path)) return false;
    int64_t arg = 0;
    switch(io_action(IO_RENAME, &arg)) {
        case A_ERR:
        case A_ERR_FOREVER:
            fired(F_RENAME_FAIL);
            errno = (int)arg;
            return true;
        case A_CRASH:
        case A_TORN: crash_now();
    }
    return false;
}
HOOK int rename(const char* a, const char* b) noexcept
{
    if(!real_rename) rt_init();
    return dir_fault(a) ? -1 : real_rename(a, b);
}
HOOK int renameat(int d, const char* a, int e, const char* b) noexcept
{
    return dir_fault(a) ? -1 : (int)syscall(SYS_renameat, d, a, e, b);
}
HOOK int unlink(const char* p) noexcept { return dir_fault(p) ? -1 : (int)syscall(SYS_unlinkat, AT_FDCWD, p, 0); }
HOOK int unlinkat(int d, const char* p, int fl) noexcept { return dir_fault(p) ? -1 : (int)syscall(SYS_unlinkat, d, p, fl); }
HOOK int remove(const char* p) noexcept
{
    if(dir_fault(p)) return -1;
    const int r = (int)syscall(SYS_unlinkat, AT_FDCWD, p, 0);
    return r && errno == EISDIR ? (int)syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR) : r;
}
HOOK int truncate(const char* p, off_t n) noexcept { return dir_fault(p) ? -1 : (int)syscall(SYS_truncate, p, n); }
HOOK int truncate64(const char* p, off_t n) noexcept { return truncate(p, n); }
HOOK int ftruncate(int fd, off_t n) noexcept
{
    return tracked(fd) && dir_fault("") ? -1 : (int)syscall(SYS_ftruncate, fd, n);
}
HOOK int ftruncate64(int fd, off_t n) noexcept { return ftruncate(fd, n); }
// copies inside the kernel count as writes
template <typename Copy>
static ssize_t kernel_copy(int out, size_t n, const Copy& copy)
{
    if(!tracked(out)) return copy(n);
    int64_t arg  = 0;
    const int a  = io_action(g_islog[out] ? IO_LOG : IO_WRITE, &arg);
    // the caller asks for more than there is: a part is a part of what a file here may hold
    const size_t most = n > 100000 ? 100000 : n;
    const size_t part = most * (size_t)arg / 1000;
    switch(a) {
        case A_ERR:
        case A_ERR_FOREVER:
            fired(arg == ENOSPC ? F_WRITE_NOSPC : F_WRITE_ERR);
            errno = (int)arg;
            return -1;
        case A_EINTR:
            fired(F_EINTR);
            errno = EINTR;
            return -1;
        case A_SHORT: fired(F_WRITE_SHORT); return copy(part ? part : 1);
        case A_TORN:
            fired(F_WRITE_TORN);
            if(part) copy(part % 200 + 1);
            crash_now();
            break;
        case A_CRASH: crash_now();
    }
    return copy(n);
}
HOOK ssize_t sendfile(int out, int in, off_t* o, size_t n) noexcept
{
    return kernel_copy(out, n, [&](size_t k) { return (ssize_t)syscall(SYS_sendfile, out, in, o, k); });
}
HOOK ssize_t sendfile64(int out, int in, off_t* o, size_t n) noexcept { return sendfile(out, in, o, n); }
HOOK ssize_t copy_file_range(int in, off64_t* oi, int out, off64_t* oo, size_t n, unsigned fl) noexcept
{
    return kernel_copy(out, n, [&](size_t k) { return (ssize_t)syscall(SYS_copy_file_range, in, oi, out, oo, k, fl); });
}
HOOK ssize_t pwrite(int fd, const void* b, size_t n, off_t o)
{
    return kernel_copy(fd, n, [&](size_t k) { return (ssize_t)syscall(SYS_pwrite64, fd, b, k, o); });
}
HOOK ssize_t pwrite64(int fd, const void* b, size_t n, off_t o) { return pwrite(fd, b, n, o); }

// simulated clocks: time is a function of the steps executed
HOOK int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
    if(!real_clock_gettime) rt_init();
    if(!self) return real_clock_gettime(id, ts);
    ++g_clock_calls;
    int mode = g_spec ? g_spec->clock_mode : 0;
    if(mode >= 3) fired(F_CLOCK_JUMP);
    if((mode == 1 || mode == 2) && g_clock_calls % 2 == 0) {
        if(mode == 1) {
            g_mono_off += 3600ll * 1000000000;
            g_real_off += 86400ll * 365 * 1000000000;
        } else {
            g_real_off -= 86400ll * 30 * 1000000000; // only the wall clock goes backwards
        }
        fired(F_CLOCK_JUMP);
    }
    bool mono  = id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_MONOTONIC_COARSE
                || id == CLOCK_BOOTTIME;
    int64_t mono_base = 5000000000ll, real_base = 1500000000ll * 1000000000;
    if(mode == 3) real_base = -86400ll * 1000000000; // the wall clock shows a day before its epoch
    if(mode == 4) mono_base = 3000000000ll * 1000000000, real_base = 8000000000ll * 1000000000;
    int64_t ns = (int64_t)g_steps + (mono ? mono_base + g_mono_off : real_base + g_real_off);
    ts->tv_sec  = ns / 1000000000;
    ts->tv_nsec = ns % 1000000000;
    if(ts->tv_nsec < 0) {
        ts->tv_nsec += 1000000000;
        --ts->tv_sec;
    }
    return 0;
}
HOOK int gettimeofday(struct timeval* tv, void*) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec  = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
HOOK time_t time(time_t* t) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if(t) *t = ts.tv_sec;
    return ts.tv_sec;
}
HOOK int nanosleep(const struct timespec* ts, struct timespec*)
{
    if(self) {
        g_mono_off += ts->tv_sec * 1000000000ll + ts->tv_nsec;
        g_real_off += ts->tv_sec * 1000000000ll + ts->tv_nsec;
        yield_point();
        return 0;
    }
    return raw_syscall(SYS_nanosleep, (long)ts, 0) ? -1 : 0;
}
HOOK int clock_nanosleep(clockid_t, int, const struct timespec* ts, struct timespec*)
{
    if(self) {
        nanosleep(ts, nullptr);
        return 0;
    }
    return (int)-raw_syscall(SYS_nanosleep, (long)ts, 0);
}
HOOK int usleep(useconds_t us)
{
    struct timespec ts = {us / 1000000, (long)(us % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
}
HOOK int sched_yield() noexcept
{
    if(self)
        yield_point();
    else
        raw_syscall(SYS_sched_yield);
    return 0;
}
HOOK double omp_get_wtime() noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + 1e-9 * ts.tv_nsec;
}
HOOK double omp_get_wtick() noexcept { return 1e-9; }
HOOK char* getenv(const char* n) noexcept
{
    if(!real_getenv) rt_init();
    if(self && g_spec)
        for(const auto& e : g_spec->env)
            if(!strcmp(e.name, n)) {
                fired(F_ENV);
                return const_cast<char*>(e.value);
            }
    return real_getenv(n);
}
HOOK char* secure_getenv(const char* n) noexcept { return getenv(n); }
HOOK int gethostname(char* b, size_t n) noexcept
{
    if(!real_gethostname) rt_init();
    if(!self) return real_gethostname(b, n);
    int mode = g_spec ? g_spec->hostname_mode : 0;
    if(mode) fired(F_HOSTNAME);
    std::string h = "simhost";
    if(mode == 1) h = std::string(n, 'h');
    if(mode == 2) h = std::string(n + 100, 'H');
    if(mode == 4) h = "";
    if(mode == 5) h = std::string(64, 'm');
    if(mode == 3) {
        errno = EFAULT;
        memset(b, 'x', n); // contents unspecified on failure
        return -1;
    }
    if(h.size() + 1 > n) { // glibc: truncated, not terminated, ENAMETOOLONG
        memcpy(b, h.data(), n);
        errno = ENAMETOOLONG;
        return -1;
    }
    memcpy(b, h.c_str(), h.size() + 1);
    return 0;
}

// ================================================================ public API
namespace sim
{
    template <typename T>
    static void real(T& f, const char* n)
    {
        f = (T)dlsym(RTLD_NEXT, n);
        if(!f) {
            fprintf(stderr, "cannot resolve %s\n", n);
            _exit(99);
        }
    }
    void rt_init()
    {
        static bool done;
        if(done) return;
        done = true;
        real(real_pthread_create, "pthread_create");
        real(real_pthread_join, "pthread_join");
        real(real_pthread_detach, "pthread_detach");
        real(real_mutex_lock, "pthread_mutex_lock");
        real(real_mutex_trylock, "pthread_mutex_trylock");
        real(real_mutex_unlock, "pthread_mutex_unlock");
        real(real_cond_wait, "pthread_cond_wait");
        real(real_cond_signal, "pthread_cond_signal");
        real(real_cond_broadcast, "pthread_cond_broadcast");
        real(real_pthread_once, "pthread_once");
        real(real_cond_timedwait, "pthread_cond_timedwait");
        real(real_cond_clockwait, "pthread_cond_clockwait");
        real(real_fopen, "fopen");
        real(real_fopen64, "fopen64");
        real(real_fclose, "fclose");
        real(real_open, "open");
        real(real_close, "close");
        real(real_write, "write");
        real(real_writev, "writev");
        real(real_read, "read");
        real(real_rename, "rename");
        real(real_clock_gettime, "clock_gettime");
        real(real_getenv, "getenv");
        real(real_gethostname, "gethostname");
    }

    Quiet::Quiet() : save(self) { self = nullptr; }
    Quiet::~Quiet() { self = (Thread*)save; }

    int64_t draw(int64_t lo, int64_t hi)
    {
        int64_t off;
        uint64_t span = (uint64_t)(hi - lo) + 1;
        if(C->replay) {
            off = S->ndraws < C->draws.size() ? C->draws[S->ndraws] : 0;
            if(off < 0) off = 0;
            if((uint64_t)off >= span) off = span - 1;
        } else {
            off = (int64_t)g_wl.below(span);
        }
        if(S->ndraws >= MAX_DRAWS) violation("internal", "too many draws");
        S->draws[S->ndraws++] = off;
        hmix(0xD4A0ull + (uint64_t)off);
        return lo + off;
    }
    bool chance(int percent)
    {
        int64_t v = draw(0, 99); // minimised towards 0 = false
        return v >= 100 - percent;
    }
    void note(const char* fmt, ...)
    {
        char b[512];
        va_list ap;
        va_start(ap, fmt);
        int n = vsnprintf(b, sizeof b - 1, fmt, ap);
        va_end(ap);
        if(n > (int)sizeof b - 2) n = sizeof b - 2;
        if(n < 0) return;
        for(int i = 0; i < n; ++i) hmix((unsigned char)b[i]);
        if(S->nnotes + n + 2 < NOTE_BYTES) {
            memcpy(S->notes + S->nnotes, b, n);
            S->nnotes += n;
            S->notes[S->nnotes++] = '\n';
        }
    }
    void digest(uint64_t v)
    {
        S->dig = mix(S->dig, v);
    }
    void digest(double v)
    {
        uint64_t u;
        memcpy(&u, &v, 8);
        digest(u);
    }
    void digest(const void* p, size_t n)
    {
        const unsigned char* c = (const unsigned char*)p;
        uint64_t h             = 1469598103934665603ull;
        for(size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
        digest(h);
    }
    void fault_fired(int k) { ++S->fired[k]; }
    void probe(const char* name)
    {
        for(uint32_t i = 0; i < S->nprobes; ++i)
            if(!strncmp(S->probes[i], name, 47)) {
                ++S->probe_cnt[i];
                return;
            }
        if(S->nprobes < MAX_PROBES) {
            snprintf(S->probes[S->nprobes], 48, "%s", name);
            S->probe_cnt[S->nprobes++] = 1;
        }
    }
    void fail(const char* cls, const char* fmt, ...)
    {
        char b[4000];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        violation(cls, b);
    }
    void check_close(const char* cls, double got, double want, double scale, double rel)
    {
        double d   = got - want;
        double tol = rel * (scale < 1e-300 ? 1e-300 : scale) + 1e-300;
        if(!(d <= tol && d >= -tol))
            fail(cls, "got %.17g, expected %.17g (difference %.3g, tolerance %.3g)", got, want, d, tol);
    }
    void set_max_threads(int n)
    {
        g_max_threads = n;
        if(self) self->icv.nthreads = n;
    }
    HeapMark heap_mark() { return HeapMark{g_serial}; }
    size_t heap_live_since(HeapMark m)
    {
        size_t n = 0;
        for(Blk* b = g_list.prev; b != &g_list && b->serial > m.serial; b = b->prev) ++n;
        return n;
    }
    void heap_check(const char* cls)
    {
        (void)cls;
        for(Blk* b = g_list.next; b != &g_list; b = b->next) {
            if(b->magic != LIVE) heap_bad("heap block header overwritten", b);
            check_block(b);
        }
        for(Blk* b : g_quar)
            if(b) check_quarantined(b);
    }
    void heap_fail_at(uint64_t nth, uint64_t count)
    {
        g_allocs      = 0;
        g_fail_at     = nth;
        g_fail_count  = count;
        g_heap_on     = true;
        g_fault_fired = false;
    }
    bool heap_fault_fired() { return g_fault_fired; }
    uint64_t heap_allocs() { return g_allocs; }
    void heap_reuse() { g_reuse = true; }
    void heap_fail_off() { g_heap_on = false; }
    void allow_abort(bool on) { S->abort_allowed = on; }
    uint64_t steps() { return g_steps; }
    void step_budget(uint64_t n) { g_budget = g_steps + n; }
    bool thorough() { return C->thorough; }

    static void plan_set(const std::vector<IoFault>& p)
    {
        g_nplan = 0;
        for(const auto& f : p)
            if(g_nplan < 32) g_plan[g_nplan++] = f;
        // A part was written, and then an error: what was in the way stays. (The C++ library does not know how much of its
        // buffer was written, and would write all of it once more when it tries again.)
        for(int i = 0; i < g_nplan; ++i)
            for(int k = 0; k < g_nplan; ++k)
                if(g_plan[i].act == A_ERR && g_plan[k].act == A_SHORT && g_plan[i].op == g_plan[k].op && g_plan[i].at > g_plan[k].at
                   && g_plan[i].at <= g_plan[k].at + 4)
                    g_plan[i].act = A_ERR_FOREVER;
        memset(g_ops, 0, sizeof g_ops);
        g_io_on = true;
    }
    void io_plan(const std::vector<IoFault>& p) { plan_set(p); }
    void io_plan_off() { g_io_on = false; }
    uint64_t io_count(int op) { return g_ops[op]; }

    void tick()
    {
        if(!self) return;
        hand_over();
        ++S->p_ticks;
        if(g_spec && g_spec->crash_at_tick && S->p_ticks == g_spec->crash_at_tick) crash_now();
    }

    std::string slurp(const std::string& path, bool* exists)
    {
        Quiet q;
        FILE* f = real_fopen(path.c_str(), "rb");
        if(exists) *exists = f != nullptr;
        std::string s;
        if(!f) return s;
        char b[65536];
        size_t n;
        while((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
        real_fclose(f);
        return s;
    }
    void spew(const std::string& path, const std::string& data)
    {
        Quiet q;
        FILE* f = real_fopen(path.c_str(), "wb");
        if(!f) return;
        fwrite(data.data(), 1, data.size(), f);
        real_fclose(f);
    }
    bool file_exists(const std::string& path) { return ::access(path.c_str(), F_OK) == 0; }

    static void strategy_init()
    {
        // chosen from the schedule stream, so that it is a function of the seed only
        uint64_t r = g_sc.below(100);
        g_nsite    = 0;
        if(C->calibrate)
            r = 20 + r % 60;
        if(r < 10) {
            g_strat = S_SERIAL;
        } else if(r < 34) {
            g_strat            = S_UNIFORM;
            static const double ps[] = {0.5, 0.1, 0.03, 0.01, 0.002, 0.0003};
            g_p                = ps[g_sc.below(6)];
        } else if(r < 42) {
            g_strat = S_SLICE;
            g_slice = 1 + g_sc.below(g_sc.coin(0.5) ? 8 : 400);
        } else if(r < 58) {
            g_strat  = S_PCT;
            g_nchg   = 1 + (int)g_sc.below(6);
            uint64_t span = 1ull << (4 + g_sc.below(14));
            for(int i = 0; i < g_nchg; ++i) g_chg[i] = 1 + g_sc.below(span);
            for(int i = 0; i < g_nchg; ++i)
                for(int j = i + 1; j < g_nchg; ++j)
                    if(g_chg[j] < g_chg[i]) {
                        uint64_t t = g_chg[i];
                        g_chg[i]   = g_chg[j];
                        g_chg[j]   = t;
                    }
            g_chgpos = 0;
        } else if(r < 66) {
            g_strat = S_STALL;
            g_slice = 1ull << (1 + g_sc.below(14));
        } else if(r < 72) {
            g_strat = S_SYNC;
        } else {
            g_strat = S_SITE;
            static const double ps[] = {1., 0.5, 0.2, 0.05};
            g_p     = ps[g_sc.below(4)];
            if(!C->hot.empty()) {
                int n = 1 + (int)g_sc.below(4);
                for(int i = 0; i < n; ++i) g_site_sel[g_nsite++] = C->hot[g_sc.below(C->hot.size())];
            }
        }
        g_switch_cap = g_sc.coin(0.8) ? 3000 : 30000;
        g_team_mode  = (int)g_sc.below(6);
        if(g_team_mode > 3) g_team_mode = 0;
        reset_countdown();
    }

    static void process_init(uint32_t proc)
    {
        g_proc       = proc;
        g_region_idx = 0;
        g_nthreads   = 0;
        g_runnable   = 0;
        g_live       = 0;
        g_events     = 0;
        g_nlocks     = 0;
        g_nuser      = 0;
        g_nguards    = 0;
        g_steps      = 0;
        g_sc         = Rng(mix(C->seed, 0x5C4EDull + proc));
        strategy_init();
        memset(&g_root, 0, sizeof g_root);
        g_root.n      = 1;
        Thread* t     = &g_threads[0];
        init_thread(t, 0);
        g_nthreads    = 1;
        g_root.master = t;
        g_root.th[0]  = t;
        t->team       = &g_root;
        t->icv        = root_icv();
        t->state      = T_IDLE;
        implicit_task(t, &t->implicit, nullptr);
        set_state(t, T_RUNNABLE);
        self = t;
    }

    // what the shared block holds about one process
    struct ProcState {
        pid_t pid = 0; // 0: not started
        bool ended = false;
        int st = 0;
        uint64_t ops[IO_NOPS] = {0}, fired[F_NKINDS] = {0}, ticks = 0, allocs = 0;
        int crashed = 0, hung = 0;
        void load()
        {
            memcpy(S->p_ops, ops, sizeof ops);
            memcpy(S->p_fired, fired, sizeof fired);
            S->p_ticks = ticks, S->p_crashed = crashed, S->p_hung = hung, S->p_allocs = allocs;
        }
        void save()
        {
            memcpy(ops, S->p_ops, sizeof ops);
            memcpy(fired, S->p_fired, sizeof fired);
            ticks = S->p_ticks, crashed = S->p_crashed, hung = S->p_hung, allocs = S->p_allocs;
        }
    };
    // standard output as a simulated file
    static void simulate_stdout()
    {
        static char buffer[4096];
        track(1, "out");
        stdout = stream_over(1, "w");
        setvbuf(stdout, buffer, _IOFBF, sizeof buffer);
        std::cout.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(stdout));
    }
    static void start_process(ProcState& p, const ProcSpec& spec, const std::function<int()>& fn, const std::string& ep, const std::string& op)
    {
        ++S->procs;
        uint32_t proc = (uint32_t)S->procs;
        fflush(stdout);
        p.pid = fork();
        if(p.pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            int fe = real_open(ep.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            int fo = real_open(op.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            dup2(fe, 2);
            dup2(fo, 1);
            real_close(fe);
            real_close(fo);
            if(spec.max_threads) g_max_threads = spec.max_threads;
            if(spec.simulate_stdout) simulate_stdout();
            process_init(proc);
            g_budget = spec.step_budget ? spec.step_budget : 100000000ull;
            g_spec   = &spec;
            plan_set(spec.io);
            heap_fail_at(spec.alloc_fail_at, spec.alloc_fail_count);
            int rc = [&]() noexcept { return fn(); }(); // an uncaught exception terminates
            exit(rc);
        }
    }
    static ProcResult process_result(const ProcState& p, const std::string& ep, const std::string& op)
    {
        ProcResult r;
        r.crashed_by_sim = p.crashed;
        r.hung           = p.hung;
        r.ticks          = p.ticks;
        r.allocs         = p.allocs;
        for(int i = 0; i < IO_NOPS; ++i) r.ops[i] = p.ops[i];
        for(int i = 0; i < F_NKINDS; ++i) r.fired[i] = p.fired[i];
        if(WIFEXITED(p.st)) {
            r.exited      = true;
            r.exit_status = WEXITSTATUS(p.st);
            if(S->status != ST_NONE) die_now(FAIL_EXIT);
        } else if(WIFSIGNALED(p.st)) {
            r.signal = WTERMSIG(p.st);
        }
        r.err = slurp(ep);
        r.out = slurp(op);
        if(r.err.size() > 3000) r.err = r.err.substr(r.err.size() - 3000);
        return r;
    }
    ProcResult run_process(const ProcSpec& spec, const std::function<int()>& fn)
    {
        ProcState p;
        p.load();
        S->p_quantum = 0;
        Thread* me   = self;
        self         = nullptr;
        // stdout / stderr of the process go to files next to the scratch directory
        std::string ep = C->dir + "/../err", op = C->dir + "/../out";
        start_process(p, spec, fn, ep, op);
        while(waitpid(p.pid, &p.st, 0) < 0 && errno == EINTR) {
        }
        p.save();
        self = me;
        return process_result(p, ep, op);
    }
    std::vector<ProcResult> run_side_by_side(const std::vector<SideJob>& jobs, int max_quantum)
    {
        const size_t n = jobs.size();
        std::vector<ProcState> p(n);
        std::vector<ProcResult> r(n);
        auto file = [](const char* kind, size_t i) { return C->dir + "/../" + kind + std::to_string(i); };
        for(uint64_t turn = 0;; ++turn) {
            std::vector<size_t> ready;
            for(size_t i = 0; i < n; ++i)
                if(!p[i].ended && (jobs[i].after < 0 || p[size_t(jobs[i].after)].ended)) ready.push_back(i);
            if(ready.empty()) break;
            // after a few thousand turns everybody runs to the end
            const bool last = turn > 3000;
            const size_t i  = ready[last ? 0 : size_t(draw(0, int64_t(ready.size()) - 1))];
            p[i].load();
            S->p_quantum = last ? 0 : uint64_t(draw(0, max_quantum));
            if(S->p_quantum && ready.size() > 1) fault_fired(F_PROC_SWITCH);
            Thread* me   = self;
            self         = nullptr;
            if(!p[i].pid)
                start_process(p[i], jobs[i].spec, jobs[i].fn, file("err", i), file("out", i));
            else
                kill(p[i].pid, SIGCONT);
            while(waitpid(p[i].pid, &p[i].st, WUNTRACED) < 0 && errno == EINTR) {
            }
            p[i].save();
            S->p_quantum = 0;
            self         = me;
            p[i].ended   = !WIFSTOPPED(p[i].st);
            if(p[i].ended) {
                for(size_t k = 0; S->status != ST_NONE && k < n; ++k)
                    if(p[k].pid && !p[k].ended) kill(p[k].pid, SIGKILL);
                r[i] = process_result(p[i], file("err", i), file("out", i));
            }
        }
        return r;
    }
    // called at exit of a simulated process so that its parent knows the counts
    __attribute__((destructor)) static void at_process_exit()
    {
        if(g_active && g_proc != 0) {
            for(int i = 0; i < IO_NOPS; ++i) S->p_ops[i] = g_ops[i];
            S->p_allocs = g_allocs;
            S->steps += g_steps;
            S->simtime_ns += g_steps + (g_mono_off > 0 ? (uint64_t)g_mono_off : 0);
        }
    }

    static void child_main()
    {
        fill_stack();
        try {
            scenario();
        } catch(const std::exception& e) {
            char m[300];
            snprintf(m, sizeof m, "unexpected exception: %s", e.what());
            violation("exception", m);
        }
        heap_check("heap");
        S->events += g_events;
        S->steps += g_steps;
        S->simtime_ns += g_steps + (g_mono_off > 0 ? (uint64_t)g_mono_off : 0);
        if(S->status == ST_NONE) S->status = ST_OK;
        _exit(0);
    }
    void run_child(Shared* sh, const RunConfig* cfg)
    {
        S = sh;
        C = cfg;
        if(!g_cells) g_cells = (Cell*)raw_zero(NCELL * sizeof(Cell));
        g_active = true;
        g_wl     = Rng(mix(cfg->seed, 0x3017C10ADull));
        static const unsigned char fills[] = {0xB5, 0x40, 0x3F, 0xFF, 0x00, 0x7F};
        g_fill   = fills[mix(cfg->seed, 77) % 6];
        g_budget = 60000000ull;
        process_init(0);
        g_budget = 60000000ull;
        // a stack of its own: the one of this process holds traces of what its parent did
        static ucontext_t uc;
        const size_t sz = (size_t)8 << 20; // the usual limit
        void* st = mmap((void*)0x280000000000, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if(st == MAP_FAILED) {
            S->status = ST_INTERNAL;
            _exit(FAIL_EXIT);
        }
        getcontext(&uc);
        uc.uc_stack.ss_sp   = st;
        uc.uc_stack.ss_size = sz;
        uc.uc_link          = nullptr;
        makecontext(&uc, child_main, 0);
        setcontext(&uc);
        _exit(FAIL_EXIT);
    }
} // namespace sim
