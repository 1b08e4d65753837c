// C03: expectation-value tables, one and two dimensions
#include "common.hpp"
#include <numeric>
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"
#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/models/hubbard_real_space/expectation_value.hpp"

using namespace ieompp;
namespace hr = models::hubbard_real_space;

const sim::CheckInfo sim::info = {
    "C03", LARGER("expectation_value"),
    ONE_RUN "dimension, lattice extents (1..48 sites, or 1..9 x 1..9, at times 1..400 sites or 1..26 x 1..26), filling, Fermi momentum, spacing and thread "
    "count drawn; a run is non-trivial and distinct by the hash of its complete event history (draws, team sizes, "
    "switches, results)",
    "ExpectationValue1DHalfFilled, ExpectationValue2DHalfFilled, PeriodicChain, PeriodicSquareLattice",
    "OpenMP runtime (simulated), pthreads (simulated), heap (simulated); StaticVector of Blaze (stand-in)"};

void sim::zygote() {}

// all pairs, or every distance from some of the sites
static uint64_t pairs_stride(uint64_t sites) { return sites <= 700 ? 1 : sites <= 20000 ? sites / 50 : sites / 2 + 1; }

template <typename Float>
static void run_1d(double rel)
{
    using Lattice       = lattices::PeriodicChain<Float, uint64_t>;
    const uint64_t N    = h::draw_size(48, 400, 4000, 131000);
    const Float dx      = sim::chance(50) ? Float(1) : Float(h::draw_real(0.1, 3.));
    const Float filling = sim::chance(50) ? Float(0.5) : Float(h::draw_real(0., 1.));
    const Float k_F     = sim::chance(30) ? Float(h::PI / 2) : Float(h::draw_real(0., h::PI));
    const int T         = h::draw_threads();
    sim::note("1d N=%lu dx=%.17g filling=%.17g k_F=%.17g threads=%d", N, double(dx), double(filling), double(k_F), T);

    const Lattice lattice(N, dx);
    const hr::ExpectationValue1DHalfFilled<Float, Lattice> ev(lattice, filling, k_F);
    sim::Quiet q;
    const uint64_t stride = pairs_stride(N);
    for(uint64_t a = 0; a < N; a += stride)
        for(uint64_t b = 0; b < N; ++b) {
            const auto d    = h::dist(a, b, N);
            const auto want = h::ev1d(d, filling, k_F, dx);
            const auto got  = double(ev(a, b));
            sim::digest(got);
            if(ev.lattice_distance(a, b) != d) sim::fail("distance", "N=%lu lattice_distance(%lu,%lu)=%lu", N, a, b, (unsigned long)ev.lattice_distance(a, b));
            if(!(std::fabs(got - want) <= rel * (1. + d * double(dx) * double(k_F)) * (d ? 1. / (h::PI * d * dx) : 1.)))
                sim::fail("value-1d", "N=%lu dx=%g k_F=%g: value(%lu,%lu)=%.17g, want %.17g", N, double(dx), double(k_F), a, b, got, want);
        }
}

template <typename Float>
static void run_2d(double tolerance)
{
    using Lattice     = lattices::PeriodicSquareLattice<Float, uint64_t>;
    const uint64_t Nx = h::draw_size(9, 26, 90, 510), Ny = sim::chance(40) || Nx > 500 ? Nx : h::draw_size(9, 26, 90);
    const int T       = h::draw_threads();
    sim::note("2d %lux%lu threads=%d", Nx, Ny, T);
    const Lattice lattice(Nx, Ny, 1., 1.);
    const hr::ExpectationValue2DHalfFilled<Float, Lattice> ev(lattice);
    sim::Quiet q;
    const uint64_t stride = pairs_stride(Nx * Ny);
    for(uint64_t a = 0; a < Nx * Ny; a += stride)
        for(uint64_t b = 0; b < Nx * Ny; ++b) {
            // sites are told apart by the lattice's own coordinates
            const auto va = lattice[a], vb = lattice[b];
            const auto dx = h::dist(uint64_t(va[0] + 0.5), uint64_t(vb[0] + 0.5), Nx);
            const auto dy = h::dist(uint64_t(va[1] + 0.5), uint64_t(vb[1] + 0.5), Ny);
            const auto want = h::ev2d(dx, dy);
            const auto got  = double(ev(a, b));
            sim::digest(got);
            if(!(std::fabs(got - want) <= tolerance))
                sim::fail("value-2d", "%lux%lu: value(%lu,%lu)=%.17g, want %.17g", Nx, Ny, a, b, got, want);
        }
    // the sites are all different
    for(uint64_t a = 0; a < Nx * Ny; a += stride)
        for(uint64_t b = 0; b < a; ++b)
            if(lattice[a][0] == lattice[b][0] && lattice[a][1] == lattice[b][1])
                sim::fail("sites", "%lux%lu: sites %lu and %lu have the same position", Nx, Ny, b, a);
}

static void once()
{
    switch(sim::draw(0, 5)) {
        case 0:
        case 1: run_1d<double>(1e-12); break;
        case 2: run_1d<float>(2e-6); break;
        case 3: run_2d<float>(1e-6); break;
        default: run_2d<double>(1e-12);
    }
}

void sim::scenario() { h::rounds(once); }
