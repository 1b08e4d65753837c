// C07: independent callers in different threads
#include "jobs.hpp"
#include <omp.h>
#include <thread>

using namespace h;
#ifndef PROPERTY
#define PROPERTY "C07"
#define COMPONENT "concurrent_callers"
#endif

const sim::CheckInfo sim::info = {
    PROPERTY, COMPONENT,
    "one run: 2..5 callers (std::threads, or members of an OpenMP team with nested parallelism off or on), each with 1..3 "
    "jobs out of 30 kinds of library calls with drawn sizes and inputs, on objects of its own or on shared constant ones, "
    "with a drawn thread count",
    "RK4 (dense, sparse, function matrix), multiply_assign (Eigen, Blaze), SiteOccupation, FermiJump1D/2D/_NO, Dispersion, "
    "ExpectationValue1D/2D, conjugate bases of both spaces, ParticleNumber, Liouvillian matrices of both spaces, commutators "
    "and products of terms, lattices",
    "OpenMP runtime, pthreads, static guards and heap (simulated); Blaze types (stand-in)"};

void sim::zygote() {}

#ifdef KINDS // only the calls of one property
static const int kinds[] = {KINDS};
static int draw_kind() { return kinds[sim::draw(0, int64_t(sizeof kinds / sizeof *kinds) - 1)]; }
#else
static int draw_kind() { return int(sim::draw(0, J_NKINDS - 1)); }
#endif

void sim::scenario()
{
    const int callers = int(sim::draw(2, 4));
    const int style   = int(sim::draw(0, 4)); // 0-2: std::thread, 3: team member, 4: team member with nested teams
    const int max     = draw_threads();
    if(max > 8) sim::set_max_threads(8);
    const bool same   = sim::chance(60); // all callers run the same kind: they meet in the same code
    const bool share  = sim::chance(50);
    const int common  = draw_kind();
    std::vector<std::vector<std::unique_ptr<World>>> work(callers);
    std::vector<std::unique_ptr<World>> shared;
    std::vector<std::vector<World*>> plan(callers);
    std::vector<std::vector<Outcome>> out(callers);
    std::vector<std::vector<std::unique_ptr<std::vector<Complex>>>> own(callers); // each caller's own vector for a shared observable
    if(share) {
        const int k = int(sim::draw(1, 2));
        for(int i = 0; i < k; ++i)
            shared.emplace_back(new World(draw_params(same && i == 0 ? common : draw_kind())));
        for(auto& w : shared) w->build();
    }
    for(int c = 0; c < callers; ++c) {
        const int jobs = int(sim::draw(1, 2));
        for(int j = 0; j < jobs; ++j) {
            if(share && sim::chance(60)) {
                plan[c].push_back(shared[sim::draw(0, int(shared.size()) - 1)].get());
            } else {
                work[c].emplace_back(new World(draw_params(same ? common : draw_kind())));
                plan[c].push_back(work[c].back().get());
            }
        }
        out[c].resize(plan[c].size());
        own[c].resize(plan[c].size());
        for(size_t j = 0; j < plan[c].size(); ++j)
            if(share && sim::chance(40))
                own[c][j].reset(new std::vector<Complex>(plan[c][j]->other_vec(uint64_t(sim::draw(0, 1 << 20)))));
    }
    sim::note("callers=%d style=%d threads=%d share=%d same=%d kind=%s", callers, style, max, share, same, job_names[common]);
    auto body = [&](int c) {
        for(size_t j = 0; j < plan[c].size(); ++j) {
            World* w    = plan[c][j];
            bool mine   = true;
            for(auto& s : shared) mine = mine && s.get() != w;
            if(mine) w->build();
            evaluate(*w, out[c][j], own[c][j].get());
        }
    };
    if(style <= 2) {
        std::vector<std::thread> ts;
        for(int c = 1; c < callers; ++c) ts.emplace_back(body, c);
        body(0);
        for(auto& t : ts) t.join();
    } else {
        omp_set_max_active_levels(style == 4 ? 3 : 1);
#pragma omp parallel for schedule(static, 1) num_threads(callers)
        for(int c = 0; c < callers; ++c) body(c);
    }
    for(int c = 0; c < callers; ++c)
        for(size_t j = 0; j < plan[c].size(); ++j) compare("interference", *plan[c][j], out[c][j], own[c][j].get());
    sim::heap_check("memory");
}
