// C04: the dispersion program
#include "prog.hpp"

extern "C" int prog_dispersion_1d();

using namespace h;

const sim::CheckInfo sim::info = {"C04", "dispersion_program",
                                  "one run: the dispersion program with a drawn thread count, team size and interleaving",
                                  "program dispersion_1d with everything it uses", "OpenMP runtime, heap, files (simulated)"};

void sim::zygote() {}

void sim::scenario()
{
    sim::ProcSpec spec;
    spec.max_threads = draw_threads();
    const auto what  = "dispersion, threads=" + std::to_string(spec.max_threads);
    sim::note("%s", what.c_str());
    const auto r = run_program([](int, char**) { return prog_dispersion_1d(); }, "dispersion", {}, spec);
    if(!r.exited || r.exit_status != 0) sim::fail("exit", "%s: %s", what.c_str(), describe(r).c_str());
    sim::Quiet q;
    const auto text = sim::slurp("dispersion.txt");
    const auto o    = split_output(text);
    if(!o.complete_end || o.rows.size() != 1024) sim::fail("rows", "%s: %zu rows", what.c_str(), o.rows.size());
    for(size_t i = 0; i < 1024; ++i) {
        const double k = -PI + 2. * PI / 1024. * double(i);
        const auto e   = compare_row(o.rows[i], {{k, -2. * std::cos(k)}, {1e-3, 1e-3}});
        if(!e.empty()) sim::fail("rows", "%s: row %zu: %s", what.c_str(), i, e.c_str());
    }
    sim::digest(text.data(), text.size());
}
