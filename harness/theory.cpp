// C10: the kinetic-theory program
#include "prog.hpp"

#ifdef SMALL_N
extern "C" int prog_theory_small();
#define PROGRAM prog_theory_small
static const unsigned N = SMALL_N, STEPS = SMALL_STEPS;
#else
extern "C" int prog_real_1d_kinetic_theory();
#define PROGRAM prog_real_1d_kinetic_theory
static const unsigned N = 128, STEPS = 10000;
#endif
void theory_reference(unsigned N, unsigned steps, std::vector<double>& re, std::vector<double>& im, std::vector<double>& scale);

using namespace h;

const sim::CheckInfo sim::info = {
    "C10",
#ifdef SMALL_N
    "theory_small",
    "one run: the kinetic-theory program with smaller constants in a copy of its source, with a drawn thread count, team "
    "size of every parallel region and interleaving of its memory accesses",
#else
    "theory_full",
    "one run: the kinetic-theory program at its full size, with a drawn thread count, team size of every parallel region "
    "and order of the threads (switched at runtime calls only)",
#endif
    "program real_1d_kinetic_theory with everything it uses", "OpenMP runtime, heap, files (simulated)"};

static std::vector<Row> rows;

void sim::zygote()
{
    std::vector<double> re, im, scale;
    theory_reference(N, STEPS, re, im, scale);
    for(unsigned s = 0; s < STEPS; ++s) rows.push_back({{s * 0.01, re[s], im[s]}, {1e-3, scale[s] + 1e-6, scale[s] + 1e-6}});
}

void sim::scenario()
{
    sim::ProcSpec spec;
    spec.max_threads = draw_threads();
    const std::string what = "kinetic theory, threads=" + std::to_string(spec.max_threads);
    sim::note("%s", what.c_str());
    const auto r = run_program([](int, char**) { return PROGRAM(); }, "theory", {}, spec);
    if(!r.exited || r.exit_status != 0) sim::fail("exit", "%s: %s", what.c_str(), describe(r).c_str());
    sim::Quiet q;
    const auto text = sim::slurp("theory.txt");
    const auto o    = split_output(text);
    if(!o.complete_end || o.rows.size() != rows.size())
        sim::fail("rows", "%s: %zu rows instead of %zu", what.c_str(), o.rows.size(), rows.size());
    for(size_t i = 0; i < rows.size(); ++i) {
        const auto e = compare_row(o.rows[i], rows[i]);
        if(!e.empty()) sim::fail("rows", "%s: row %zu: %s", what.c_str(), i, e.c_str());
    }
    sim::digest(text.data(), text.size());
}
