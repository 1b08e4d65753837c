// C13: disk errors under the programs without options
#include "prog.hpp"

extern "C" {
int prog_trivial();
int prog_dispersion_1d();
#ifndef NO_SMALL_THEORY
int prog_theory_small();
#endif
}

using namespace h;

const sim::CheckInfo sim::info = {
    "C13", "disk_plain",
    "one run: trivial model, dispersion or kinetic theory (its source with smaller constants) runs undisturbed, then again "
    "up to three times with a drawn plan of file faults",
    "programs trivial, dispersion_1d, real_1d_kinetic_theory (reduced sizes) with everything they use",
    "OpenMP runtime, heap, files (simulated); Blaze types (stand-in)"};

void sim::zygote() {}

// rows of numbers, equal up to rounding
static void same_numbers(const std::string& what, const std::string& got, const std::string& want)
{
    sim::Quiet q;
    if(got == want) return;
    const char *a = got.c_str(), *b = want.c_str();
    size_t line = 0;
    for(;;) {
        if(*a == *b && (*a == '\t' || *a == '\n')) {
            line += *a == '\n';
            ++a, ++b;
            continue;
        }
        if(!*a && !*b) return;
        char *ea, *eb;
        const double x = std::strtod(a, &ea), y = std::strtod(b, &eb);
        if(ea == a || eb == b || !(std::fabs(x - y) <= 1.01e-5 * std::fabs(y) + 1e-12) || *ea != *eb)
            sim::fail("incomplete", "%s: exit status 0, but line %zu is not that of an undisturbed run", what.c_str(), line);
        a = ea, b = eb;
    }
}

void sim::scenario()
{
    struct {
        const char* name;
        const char* file;
        int (*main)();
        size_t rows;
    } const programs[] = {{"trivial", "trivial.txt", prog_trivial, 2001},
                          {"dispersion_1d", "dispersion.txt", prog_dispersion_1d, 1024},
#ifndef NO_SMALL_THEORY
                          {"kinetic_theory", "theory.txt", prog_theory_small, 0},
#endif
    };
    const auto& p = programs[sim::draw(0, int(sizeof programs / sizeof *programs) - 1)];
    auto run      = [&p](const sim::ProcSpec& s) {
        auto f = p.main;
        return run_program([f](int, char**) { return f(); }, p.name, {}, s);
    };
    sim::ProcSpec spec;
    spec.max_threads = draw_threads();
    const auto dry   = run(spec);
    if(!dry.exited || dry.exit_status != 0) sim::fail("exit", "%s: %s", p.name, describe(dry).c_str());
    const auto full = sim::slurp(p.file);
    const auto rows = size_t(std::count(full.begin(), full.end(), '\n'));
    if(rows == 0 || (p.rows && rows != p.rows) || full.back() != '\n') sim::fail("rows", "%s: %zu rows", p.name, rows);
    const int passes = int(sim::draw(1, 3));
    for(int k = 0; k < passes; ++k) {
        auto s          = spec;
        const bool oom  = sim::chance(20), hard = oom || sim::chance(75);
        const auto what = p.name + (oom ? draw_out_of_memory(s, dry.allocs) : draw_plan(s.io, dry.ops, hard));
        sim::note("%s", what.c_str());
        leave_old(p.file);
        const auto r = run(s);
        check_ending(what, r, hard);
        if(r.exited && r.exit_status == 0) same_numbers(what, sim::slurp(p.file), full);
    }
}
