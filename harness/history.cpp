// C08: results do not depend on what the process did before
#include "jobs.hpp"
#include <new>

using namespace h;

const sim::CheckInfo sim::info = {
    "C08", "history",
    "one run: a sequence of 2..7 library calls of 30 kinds with drawn sizes, inputs and thread counts in one process; in "
    "between, objects are copied and the originals destroyed, later objects take the addresses of destroyed ones, evaluations are repeated, also with other contents of the same inputs, and calls are made to fail by a "
    "failing allocation before they are repeated",
    "RK4 (dense, sparse, function matrix), multiply_assign (Eigen, Blaze), SiteOccupation, FermiJump1D/2D/_NO, Dispersion, "
    "ExpectationValue1D/2D, conjugate bases of both spaces, ParticleNumber, Liouvillian matrices of both spaces, commutators "
    "and products of terms, lattices",
    "OpenMP runtime and heap (simulated); Blaze types (stand-in)"};

void sim::zygote() {}

void sim::scenario()
{
    const int jobs   = int(sim::draw(2, sim::thorough() ? 9 : 6));
    const bool same  = sim::chance(65);
    const int common = int(sim::draw(0, J_NKINDS - 1));
    const bool drop  = sim::chance(40); // later objects live where earlier ones lived
    if(drop) sim::heap_reuse();
    std::vector<std::unique_ptr<World>> alive; // earlier objects stay usable
    for(int j = 0; j < jobs; ++j) {
        const int T = draw_threads();
        const auto p = draw_params(same ? common : int(sim::draw(0, J_NKINDS - 1)));
        sim::note("%s n=%lu m=%lu threads=%d", job_names[p.kind], p.n, p.m, T);
        if(sim::chance(25)) { // a call that fails
            World w(p);
            Outcome o;
            sim::heap_fail_at(uint64_t(sim::draw(1, 30)), sim::chance(50) ? 1 : 1000000);
            sim::allow_abort(true); // how it fails is the subject of C09
            try {
                w.build();
                evaluate(w, o);
            } catch(const std::bad_alloc&) {
                sim::probe("failed-call");
            }
            sim::heap_fail_off();
            sim::allow_abort(false);
        }
        std::unique_ptr<World> w(new World(p));
        Outcome o;
        w->build();
        if(sim::chance(35)) {
            w->copy_objects();
            sim::probe("copied");
        }
        evaluate(*w, o);
        compare("history", *w, o);
        if(sim::chance(30)) {
            w->copy_objects();
            evaluate(*w, o);
            compare("copy", *w, o);
        }
        if(sim::chance(30)) { // other contents of the same inputs
            w->refill(uint64_t(sim::draw(0, 1 << 20)));
            evaluate(*w, o);
            compare("inputs", *w, o);
            sim::probe("refilled");
        }
        if(drop && sim::chance(60)) {
            sim::probe("destroyed");
            continue;
        }
        alive.push_back(std::move(w));
        if(sim::chance(40)) {
            const auto& old = *alive[sim::draw(0, int(alive.size()) - 1)];
            evaluate(old, o);
            compare("repeat", old, o);
        }
    }
    sim::heap_check("memory");
}
