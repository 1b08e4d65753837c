// C04: dispersion objects
#include "model.hpp"
#include <complex>
#include "ieompp/models/hubbard/dispersion.hpp"

using namespace ieompp;
using namespace h;

const sim::CheckInfo sim::info = {
    "C04", LARGER("dispersion"),
    ONE_RUN "dimension, extents of the momentum space (1..64, or 1..9 x 1..9, at times 1..600 or 1..26 x 1..26), lattice spacings, hopping, scalar type and "
    "thread count drawn; all momenta compared with the closed form",
    "Dispersion, make_dispersion, PeriodicChain, PeriodicSquareLattice, dot_product",
    "OpenMP runtime, pthreads and heap (simulated); StaticVector of Blaze (stand-in)"};

void sim::zygote() {}

template <typename Float>
static void run1(double rel)
{
    using L          = lattices::PeriodicChain<Float, uint64_t>;
    const uint64_t N = draw_size(64, 600, 6000, 65000);
    const Float J    = sim::chance(40) ? Float(1) : Float(draw_real(-2., 2.));
    const Float dx   = sim::chance(40) ? Float(1) : Float(draw_real(0.1, 3.));
    const int T      = draw_threads();
    sim::note("1d N=%lu J=%g dx=%g threads=%d", N, double(J), double(dx), T);
    const L bz(N), lattice(N, dx);
    const auto disp = models::hubbard::make_dispersion(bz, lattice, J);
    sim::Quiet q;
    for(uint64_t i = 0; i < N; ++i) {
        const double k = -PI + 2. * PI / double(N) * double(i);
        const double w = -2. * double(J) * std::cos(k * double(dx));
        const double g = double(disp(i));
        sim::digest(g);
        if(!(std::fabs(g - w) <= rel * (1. + std::fabs(double(J)))))
            sim::fail("value-1d", "N=%lu J=%g dx=%g: value(%lu)=%.17g, want %.17g", N, double(J), double(dx), i, g, w);
    }
}
static void run2()
{
    const uint64_t Nx = draw_size(9, 26, 90, 256), Ny = sim::chance(40) || Nx > 200 ? Nx : draw_size(9, 26, 90);
    const double J    = sim::chance(40) ? 1. : draw_real(-2., 2.);
    const double dx   = sim::chance(40) ? 1. : draw_real(0.1, 3.), dy = sim::chance(40) ? 1. : draw_real(0.1, 3.);
    const int T       = draw_threads();
    sim::note("2d %lux%lu J=%g dx=%g dy=%g threads=%d", Nx, Ny, J, dx, dy, T);
    const Square bz(Nx, Ny), lattice(Nx, Ny, dx, dy);
    const auto disp = models::hubbard::make_dispersion(bz, lattice, J);
    sim::Quiet q;
    for(uint64_t i = 0; i < Nx * Ny; ++i) {
        const double kx = -PI + 2. * PI / double(Nx) * double(i / Ny), ky = -PI + 2. * PI / double(Ny) * double(i % Ny);
        // lattice vectors are (dx, 0) and (0, dy)
        const double w = -2. * J * (std::cos(kx * dx) + std::cos(ky * dy));
        const double g = disp(i);
        sim::digest(g);
        if(!(std::fabs(g - w) <= 1e-11 * (1. + std::fabs(J))))
            sim::fail("value-2d", "%lux%lu J=%g: value(%lu)=%.17g, want %.17g", Nx, Ny, J, i, g, w);
    }
}

static void once()
{
    switch(sim::draw(0, 4)) {
        case 0:
        case 1: run1<double>(1e-11); break;
        case 2: run1<float>(1e-5); break;
        default: run2();
    }
}

void sim::scenario() { rounds(once); }
