// Internals shared by runtime and driver.
#ifndef VERIF_SIM_INTERNAL_H
#define VERIF_SIM_INTERNAL_H
#include "sim.h"

namespace sim
{
    struct Switch {
        uint32_t proc, tid;
        uint64_t cnt;
        uint32_t target;
        uint32_t pad;
    };
    struct TeamRec {
        uint32_t proc, idx, shortby;
    };
    enum { ST_NONE = 0, ST_OK = 1, ST_VIOLATION = 2, ST_INTERNAL = 3 };
    static const uint32_t MAX_DRAWS = 16384, MAX_TEAMS = 65536, MAX_SW = 1u << 17, MAX_SITES = 512,
                          MAX_PROBES = 64, NOTE_BYTES = 1u << 16;

    struct Shared { // one per worker process, survives the death of a run
        int status;
        char cls[96];
        char msg[6000];
        uint64_t hash, dig;
        uint64_t steps, events, switches, regions, procs, simtime_ns;
        uint32_t maxteam;
        uint64_t fired[F_NKINDS];
        uint32_t ndraws;
        int64_t draws[MAX_DRAWS]; // offset from the lower end
        uint32_t nteams;
        TeamRec teams[MAX_TEAMS];
        uint32_t nsw, sw_overflow;
        Switch sw[MAX_SW];
        uint32_t nsites;
        uint64_t sites[MAX_SITES];
        uint32_t nprobes;
        char probes[MAX_PROBES][48];
        uint64_t probe_cnt[MAX_PROBES];
        uint32_t nnotes;
        char notes[NOTE_BYTES];
        // per simulated process
        uint64_t p_ops[IO_NOPS], p_fired[F_NKINDS], p_ticks, p_allocs;
        int p_crashed, p_hung;
        int abort_allowed;
        uint64_t p_quantum; // file operations and ticks until it hands over to another process (0: never)
    };

    struct RunConfig {
        uint64_t seed    = 0;
        bool replay      = false; // draws/teams/switches below decide everything
        bool calibrate   = false;
        std::vector<int64_t> draws;
        std::vector<TeamRec> teams;
        std::vector<Switch> switches;
        std::vector<uint64_t> hot; // conflict sites found by calibration
        bool thorough = false;
        std::string dir; // scratch directory
    };

    // executes one run in the current (freshly forked) process; never returns
    [[noreturn]] void run_child(Shared* sh, const RunConfig* cfg);
    void rt_init(); // resolve the real functions
    static const int CRASH_EXIT = 177, HANG_EXIT = 178, FAIL_EXIT = 179;
} // namespace sim
#endif
