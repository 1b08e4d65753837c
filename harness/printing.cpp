// C13: disk errors and memory running out under the programs that print their results
#include "prog.hpp"

extern "C" {
int prog_commutators_real_space();
int prog_commutators_momentum_space();
}

using namespace h;

const sim::CheckInfo sim::info = {
    "C13", "printing",
    "one run: one of the programs that print commutators runs undisturbed, then again up to five times with a drawn plan of faults of "
    "its standard output or of the heap",
    "programs commutators_real_space and commutators_momentum_space with everything they use",
    "heap, files, standard output (simulated)"};

void sim::zygote() {}

void sim::scenario()
{
    struct {
        const char* name;
        int (*main)();
    } const programs[] = {{"commutators_real_space", prog_commutators_real_space},
                          {"commutators_momentum_space", prog_commutators_momentum_space}};
    const auto& p = programs[sim::draw(0, 1)];
    auto run      = [&p](const sim::ProcSpec& s) {
        auto f = p.main;
        return run_program([f](int, char**) { return f(); }, p.name, {}, s);
    };
    sim::ProcSpec spec;
    spec.simulate_stdout = true;
    const auto dry       = run(spec);
    if(!dry.exited || dry.exit_status != 0) sim::fail("exit", "%s: %s", p.name, describe(dry).c_str());
    if(dry.out.empty() || dry.out.back() != '\n') sim::fail("rows", "%s: printed %zu bytes", p.name, dry.out.size());
    sim::digest(dry.out.data(), dry.out.size());
    const int passes = int(sim::draw(1, 5));
    for(int k = 0; k < passes; ++k) {
        auto s          = spec;
        const bool oom  = sim::chance(50), hard = oom || sim::chance(75);
        const auto what = p.name + (oom ? draw_out_of_memory(s, dry.allocs) : draw_plan(s.io, dry.ops, hard));
        sim::note("%s", what.c_str());
        const auto r = run(s);
        check_ending(what, r, hard);
        if(r.exited && r.exit_status == 0 && r.out != dry.out)
            sim::fail("incomplete", "%s: exit status 0, but %zu of %zu bytes are printed or differ", what.c_str(), r.out.size(), dry.out.size());
    }
}
