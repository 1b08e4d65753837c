// Deterministic simulator for ieompp: public interface used by the harnesses.
#ifndef VERIF_SIM_H
#define VERIF_SIM_H
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim
{
    // ---------------------------------------------------------------- random
    struct Rng {
        uint64_t s;
        explicit Rng(uint64_t seed = 1) : s(seed) {}
        uint64_t next()
        {
            uint64_t z = (s += 0x9E3779B97F4A7C15ull);
            z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z          = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            return z ^ (z >> 31);
        }
        uint64_t below(uint64_t n) { return n ? next() % n : 0; }
        double unit() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
        double sym() { return 2. * unit() - 1.; }
        bool coin(double p) { return unit() < p; }
    };
    inline uint64_t mix(uint64_t a, uint64_t b)
    {
        Rng r(a ^ (b * 0xD6E8FEB86659FD93ull + 0x2545F4914F6CDD1Dull));
        r.next();
        return r.next();
    }

    // ---------------------------------------------------------------- faults
    enum FaultKind {
        F_TEAM_SHORT, // OpenMP runtime delivered a smaller team than asked for
        F_STALL,      // a thread was stalled until all others had to wait for it
        F_PREEMPT,    // a thread was preempted in the middle of a parallel region
        F_BADALLOC,   // operator new failed
        F_OPEN_FAIL,
        F_WRITE_ERR, // EIO
        F_WRITE_NOSPC,
        F_WRITE_SHORT,
        F_WRITE_TORN, // part of the data written, then crash
        F_EINTR,
        F_READ_ERR,
        F_READ_SHORT,
        F_CLOSE_FAIL,
        F_RENAME_FAIL,
        F_CRASH, // process death (unflushed user-space data is lost)
        F_RESTART,
        F_CLOCK_JUMP,
        F_ENV,      // environment variable unset / odd
        F_HOSTNAME, // odd host name
        F_STREAM_EOF,
        F_STREAM_ERR,
        F_STREAM_CHUNK,
        F_CANCEL_CALL, // a call was abandoned by an exception thrown from a callback
        F_PROC_SWITCH, // another process went on in the middle of this one
        F_NKINDS
    };
    extern const char* const fault_names[F_NKINDS];

    // ------------------------------------------------- simulated file system
    enum IoOp { IO_OPEN, IO_WRITE, IO_READ, IO_CLOSE, IO_RENAME, IO_LOG /* writes to *.log */, IO_NOPS };
    enum IoAct {
        A_NONE,
        A_ERR,         // fail with errno arg, once
        A_ERR_FOREVER, // this and all later operations of the class fail with errno arg
        A_SHORT,       // transfer only part (arg per mille, at least one byte)
        A_EINTR,       // fail once with EINTR
        A_CRASH,       // die before the operation
        A_TORN         // write arg per mille of the data, then die
    };
    struct IoFault {
        int op;
        uint64_t at; // n-th operation of this class in this simulated process (1-based)
        int act;
        int64_t arg;
    };

    struct EnvOverride {
        const char* name;
        const char* value; // nullptr: unset
    };

    struct ProcSpec {
        std::vector<IoFault> io;
        std::vector<EnvOverride> env;
        int hostname_mode  = 0; // 0 short, 1 exactly fills, 2 longer than buffer, 3 fails, 4 empty, 5 HOST_NAME_MAX characters
        int clock_mode     = 0; // 0 steady, 1 jumps forward, 2 realtime jumps back, 3 realtime before the epoch, 4 far future
        int max_threads    = 0; // 0: from the run's configuration
        uint64_t crash_at_tick = 0; // die at this tick() (see below); 0: never
        uint64_t step_budget   = 0; // 0: default
        bool simulate_stdout   = false; // file faults may hit standard output, too
        uint64_t alloc_fail_at = 0, alloc_fail_count = 1; // this and the following allocations fail; 0: none
    };
    struct ProcResult {
        bool crashed_by_sim = false; // died at an injected crash
        bool exited         = false;
        int exit_status     = 0;
        int signal          = 0; // died from a signal (abort, segfault)
        bool hung           = false;
        uint64_t ticks      = 0;             // tick() calls made
        uint64_t allocs     = 0;             // allocations made
        uint64_t ops[IO_NOPS] = {0};         // file operations of each class
        uint64_t fired[F_NKINDS] = {0};      // faults that actually fired
        std::string err;                     // tail of its stderr
        std::string out;                     // its stdout
    };

    // a point of the simulated program at which a crash may be requested by number
    void tick();

    // ----------------------------------------------------------------- a run
    // All functions below may only be called from the scenario of a run.
    int64_t draw(int64_t lo, int64_t hi); // recorded choice; minimised towards lo
    bool chance(int percent);             // recorded choice; minimised towards false
    void note(const char* fmt, ...);      // goes to the (hashed) event log
    void digest(double v);
    void digest(uint64_t v);
    void digest(const void* p, size_t n);
    void fault_fired(int kind);
    void probe(const char* name); // "this rare condition was hit"
    [[noreturn]] void fail(const char* cls, const char* fmt, ...);
    void check_close(const char* cls, double got, double want, double scale, double rel = 1e-9);

    // threads
    void set_max_threads(int n); // nthreads-var of the simulated OpenMP runtime
    // heap
    struct HeapMark {
        uint64_t serial;
    };
    HeapMark heap_mark();
    size_t heap_live_since(HeapMark m);              // blocks allocated since and not freed
    void heap_check(const char* cls);                // canaries and poisoned memory
    void heap_fail_at(uint64_t nth, uint64_t count); // nth allocation from now fails (outside teams)
    bool heap_fault_fired();
    uint64_t heap_allocs();
    void heap_fail_off();
    void allow_abort(bool on); // while it is on, abort() ends the run without a verdict
    void heap_reuse(); // for the rest of the run, freed blocks are handed out again at once
    // processes: run fn as a simulated process (fork), with its own fault plan
    ProcResult run_process(const ProcSpec& spec, const std::function<int()>& fn);
    // several processes side by side: they hand over to each other at file operations and ticks, as drawn
    struct SideJob {
        ProcSpec spec;
        std::function<int()> fn;
        int after = -1; // starts when that job has ended (-1: any time)
    };
    std::vector<ProcResult> run_side_by_side(const std::vector<SideJob>& jobs, int max_quantum);
    // scratch directory of this run (current directory of the run), emptied at start
    std::string slurp(const std::string& path, bool* exists = nullptr);
    void spew(const std::string& path, const std::string& data);
    bool file_exists(const std::string& path);
    // faults for files used in the current process (no fork)
    void io_plan(const std::vector<IoFault>& plan);
    void io_plan_off();
    uint64_t io_count(int op);
    uint64_t steps();
    void step_budget(uint64_t n); // from now on
    bool thorough();

    // code run in here is the harness' own and is neither scheduled nor counted
    struct Quiet {
        Quiet();
        ~Quiet();
        void* save;
    };

    // ------------------------------------------------- supplied by a harness
    struct CheckInfo {
        const char* property;
        const char* component; // name of this binary's scenario
        const char* rule;      // how cases are made, what makes one non-trivial
        const char* real;      // components that ran real code
        const char* stub;      // components that ran a stub
    };
    extern const CheckInfo info;
    void zygote();   // once, before any run (no simulation)
    void scenario(); // one run
} // namespace sim
#endif
