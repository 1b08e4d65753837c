// C11: trajectories of the time-evolution programs
#include "prog.hpp"

using namespace h;

#ifdef LASTING
#define NAME "trajectory_long"
#define KIND "one run, of up to thousands of steps (the programs are scheduled at runtime calls only): the trivial model, or one of six "
#else
#define NAME "trajectory"
#define KIND "one run: one of six "
#endif
const sim::CheckInfo sim::info = {
    "C11", NAME, KIND
    "time-evolution programs with drawn lattice size, couplings, filling, Fermi momentum, step width, "
    "stop time and measurement interval, executed as a simulated process with a drawn thread count; sometimes a second time "
    "with another one",
    "programs real_1d_rk4, _coefficients, _jump, real_1d_kinetic_rk4, _coefficients, real_2d_rk4_jump, trivial with everything they use",
    "OpenMP runtime, heap, files (simulated); Blaze types and spdlog (stand-ins)"};

void sim::zygote() {}

#ifdef LASTING
extern "C" int prog_trivial();
// the four-dimensional model without parameters: time, four coefficients, occupation
static void trivial()
{
    const double J = 1., U = 1., dt = 0.01;
    const size_t steps = 2000;
    std::vector<Row> want;
    {
        sim::Quiet q;
        std::vector<Complex> u{1., 0., 0., 0.};
        auto f = [&](const std::vector<Complex>& v) {
            const Complex I(0., 1.);
            return std::vector<Complex>{I * (U / 2. * (v[0] + v[3]) - J * (v[1] + v[2])), I * (U / 2. * v[1] - J * v[0]),
                                        I * (U / 2. * v[2] - J * v[0]), I * (U / 2. * (v[0] + v[3]))};
        };
        auto plus = [&](const std::vector<Complex>& k, double a) {
            auto x = u;
            for(size_t i = 0; i < 4; ++i) x[i] += a * k[i];
            return x;
        };
        for(size_t n = 0; n <= steps; ++n) {
            Row r;
            r.v     = {double(n) * dt};
            r.scale = {1e-3};
            Complex ev = 0.;
            double s   = 1e-3;
            for(size_t i = 0; i < 4; ++i) {
                r.v.push_back(u[i].real()), r.v.push_back(u[i].imag());
                s += std::norm(u[i]);
                for(size_t j = 0; j < 4; ++j)
                    ev += i == j ? Complex(std::norm(u[i]) * (i == 3 ? 0.25 : 0.5))
                                 : u[i] * u[j] * (i < 3 && j < 3 ? 1. / PI : i == 0 || j == 0 ? 0.25 : 0.5 / PI);
            }
            r.v.push_back(ev.real()), r.v.push_back(ev.imag());
            r.scale.resize(r.v.size(), 4. * s);
            want.push_back(r);
            const auto k1 = f(u), k2 = f(plus(k1, dt / 2)), k3 = f(plus(k2, dt / 2)), k4 = f(plus(k3, dt));
            for(size_t i = 0; i < 4; ++i) u[i] += dt / 6. * (k1[i] + 2. * k2[i] + 2. * k3[i] + k4[i]);
        }
    }
    sim::ProcSpec spec;
    spec.max_threads = draw_threads();
    leave_old("trivial.txt");
    const auto r = run_program([](int, char**) { return prog_trivial(); }, "trivial", {}, spec);
    if(!r.exited || r.exit_status != 0) sim::fail("exit", "trivial: %s", describe(r).c_str());
    check_rows("rows", "trivial", "#\n" + sim::slurp("trivial.txt"), want, "");
}
#endif

void sim::scenario()
{
#ifdef LASTING
    if(sim::chance(2)) return trivial();
    const bool large = sim::chance(10);
    auto c           = draw_case(large ? 24 : sim::thorough() ? 6000 : 2000, large ? 520 : 10, -1, true);
#else
    auto c           = draw_case(sim::thorough() ? 24 : 10, sim::thorough() ? 300 : 225);
#endif
    const auto rows  = reference_rows(c);
    const auto args  = command_line(c);
    const int passes = sim::chance(25) ? 2 : 1;
    for(int i = 0; i < passes; ++i) {
        sim::ProcSpec spec;
#ifdef LASTING
        spec.max_threads = large ? draw_threads() : int(sim::draw(1, 3));
        spec.step_budget = 1000000000ull;
#else
        spec.max_threads = draw_threads();
#endif
        const std::string what = c.info().file + (" " + join(args)) + " threads=" + std::to_string(spec.max_threads);
        sim::note("%s", what.c_str());
        leave_old(std::string(c.info().file) + ".txt");
        const auto r = run_program(c.info().main, c.info().file, args, spec);
        if(!r.exited || r.exit_status != 0) sim::fail("exit", "%s: %s", what.c_str(), describe(r).c_str());
        check_rows("rows", what, sim::slurp(std::string(c.info().file) + ".txt"), rows, "");
    }
}
