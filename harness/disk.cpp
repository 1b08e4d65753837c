// C13: disk errors under the time-evolution programs
#include "prog.hpp"
#include <cerrno>

using namespace h;

const sim::CheckInfo sim::info = {
    "C13", "disk",
    "one run: one of six time-evolution programs with drawn parameters runs undisturbed, then again up to three times with "
    "a drawn plan of file faults (failing opens, full disk, I/O errors, failing closes, short and interrupted writes)",
    "programs real_1d_rk4, _coefficients, _jump, real_1d_kinetic_rk4, _coefficients, real_2d_rk4_jump with everything they use",
    "OpenMP runtime, heap, files (simulated); Blaze types and spdlog (stand-ins)"};

void sim::zygote() {}

void sim::scenario()
{
    auto c               = draw_case(sim::thorough() ? 16 : 8, sim::thorough() ? 225 : 160);
    const auto rows      = reference_rows(c);
    const auto args      = command_line(c);
    const auto file      = std::string(c.info().file) + ".txt";
    const auto what_base = c.info().file + (" " + join(args));
    sim::ProcSpec spec;
    spec.max_threads = draw_threads();
    const auto dry   = run_program(c.info().main, c.info().file, args, spec);
    if(!dry.exited || dry.exit_status != 0) sim::fail("exit", "%s: %s", what_base.c_str(), describe(dry).c_str());
    const auto full = sim::slurp(file);
    check_rows("rows", what_base, full, rows, "undisturbed");
    const auto header = header_text(full);
    const int passes  = int(sim::draw(1, 3));
    for(int k = 0; k < passes; ++k) {
        auto s          = spec;
        const bool oom  = sim::chance(20), hard = oom || sim::chance(75);
        const auto what = what_base + (oom ? draw_out_of_memory(s, dry.allocs) : draw_plan(s.io, dry.ops, hard));
        sim::note("%s", what.c_str());
        leave_old(file);
        const auto r = run_program(c.info().main, c.info().file, args, s);
        check_ending(what, r, hard);
        if(r.exited && r.exit_status == 0) {
            const auto text = sim::slurp(file);
            if(text.compare(0, header.size(), header) != 0) sim::fail("header", "%s: success, but the header is damaged", what.c_str());
            check_rows("incomplete", what, text, rows, "exit status 0");
        }
    }
}
