// C02: Fermi jump
#include "model.hpp"
#include <blaze/math/DynamicVector.h>
#include "ieompp/models/hubbard_real_space/fermi_jump.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump_no.hpp"

using namespace ieompp;
namespace hr = models::hubbard_real_space;
using namespace h;

const sim::CheckInfo sim::info = {
    "C02", LARGER("fermi_jump"),
    ONE_RUN "variant (1D one/three operators, 2D, both normal-ordered ones), lattice extents, spacing, Fermi momentum, "
    "expectation values, coefficient vector and thread count 1..64 drawn; the vector may change between evaluations",
    "FermiJump1D, FermiJump2D, FermiJump1D_NO, Basis1Operator, Basis3Operator, lattices",
    "OpenMP runtime, pthreads and heap (simulated); Blaze vectors (stand-in)"};

void sim::zygote() {}

static void compare(double got, const std::vector<Complex>& phase, const std::vector<Complex>& hv, const Table& g,
                    bool correct)
{
    sim::Quiet q;
    const uint64_t n = phase.size();
    std::complex<long double> sum(0, 0);
    double scale = 0.;
    for(uint64_t i = 0; i < n; ++i) {
        std::complex<long double> x(hv[i].real(), hv[i].imag());
        double s = std::abs(hv[i]);
        if(correct)
            for(uint64_t j = 0; j < n; ++j)
                for(uint64_t k = 0; k < n; ++k) {
                    const double p  = 2. * g(j, k) - (j == k ? 1. : 0.);
                    const Complex c = hv[n + n * n * i + n * j + k];
                    x += std::complex<long double>(p * c.real(), p * c.imag());
                    s += std::fabs(p) * std::abs(c);
                }
        sum += x * std::complex<long double>(phase[i].real(), phase[i].imag());
        scale += s;
    }
    sim::digest(got);
    sim::check_close("value", got, double(std::norm(sum)), scale * scale, 1e-9);
}
static void phase_check(const Complex& got, const Complex& want, uint64_t i, double angle)
{
    sim::digest(got.real());
    if(!(std::abs(got - want) <= 1e-11 + 2e-15 * (std::fabs(angle) + double(i))))
        sim::fail("phase", "Fourier coefficient %lu is (%.17g,%.17g), want (%.17g,%.17g)", (unsigned long)i, got.real(),
                  got.imag(), want.real(), want.imag());
}
template <typename Vector>
static Vector fill(const std::vector<Complex>& v)
{
    Vector x(v.size());
    for(size_t i = 0; i < v.size(); ++i) x[i] = v[i];
    return x;
}

template <typename Vector>
static void run(int kind)
{
    const bool three = kind == 1 || kind == 2 || kind == 4;
    uint64_t Nx, Ny = 1;
    if(kind == 2) {
        Nx = draw_size(3, 3, 5, 7);
        Ny = Nx > 5 ? 6 : draw_size(3, 3, 5);
    } else
        Nx = kind == 1 ? draw_size(7, 10, 24, 41) : kind == 4 ? draw_size(5, 5, 24, 41) : draw_size(24, 300, 1500, 65000);
    const uint64_t N = Nx * Ny;
    const double dx  = sim::chance(50) ? 1. : draw_real(0.25, 2.), dy = sim::chance(50) ? 1. : draw_real(0.25, 2.);
    double kx        = sim::chance(30) ? PI / 2 : draw_real(-PI, PI);
    const double ky  = sim::chance(30) ? PI / 2 : draw_real(-PI, PI);
    if(kind >= 3) kx = PI / 2;
    const int T      = draw_threads();
    auto g           = draw_table(N > 5000 ? 1 : N); // without a table nothing may be asked for
    if(sim::chance(20)) { // any function may be given
        sim::Quiet q;
        sim::Rng r(N * 77 + T);
        for(auto& x : g.g) x = r.sym();
    }
    auto v           = draw_vec(three ? N + N * N * N : N);
    sim::note("variant %d %lux%lu dx=%g dy=%g k=(%g,%g) threads=%d", kind, Nx, Ny, dx, dy, kx, ky, T);
    auto vec = fill<Vector>(v);
    std::vector<Complex> phase(N);
    std::vector<double> angle(N);
    for(uint64_t i = 0; i < N; ++i) {
        const double p = kx * dx * double(i / Ny) + (kind == 2 ? ky * dy * double(i % Ny) : 0.);
        angle[i]       = p;
        phase[i]       = Complex(std::cos(p), std::sin(p));
    }
    auto ev        = [&g, N](const Operator& a, const Operator& b) { return g.n == N ? g(a.index1, b.index1) : a.index1 == b.index1 ? 0.5 : 0.; };
    const int reps = int(sim::draw(1, 3));
    auto later     = [&](int r) { // the same vector at a later time
        if(!r || !sim::chance(50)) return;
        sim::probe("refilled");
        renew(v);
        for(size_t i = 0; i < v.size(); ++i) vec[i] = v[i];
    };
    if(kind == 0) {
        const Chain lattice(N, dx);
        const Basis1 basis(lattice);
        const hr::FermiJump1D<double, Basis1> jump(lattice, ev, kx);
        for(uint64_t i = 0; i < N; ++i) phase_check(jump.fourier_coefficient(i), phase[i], i, angle[i]);
        for(int r = 0; r < reps; ++r) later(r), compare(jump(basis, vec), phase, v, g, false);
    } else if(kind == 1) {
        const Chain lattice(N, dx);
        const Basis3 basis(lattice);
        const hr::FermiJump1D<double, Basis3> jump(basis, lattice, ev, kx);
        if(jump.fourier_coefficients().size() != N) sim::fail("phase", "wrong number of Fourier coefficients");
        for(uint64_t i = 0; i < N; ++i) phase_check(jump.fourier_coefficients()[i], phase[i], i, angle[i]);
        for(int r = 0; r < reps; ++r) later(r), compare(jump(vec), phase, v, g, true);
    } else if(kind == 2) {
        const Square lattice(Nx, Ny, dx, dy);
        const Basis3 basis(lattice);
        const hr::FermiJump2D<double, Basis3> jump(basis, lattice, ev, Square::Vector{kx, ky});
        if(jump.fourier_coefficients().size() != N) sim::fail("phase", "wrong number of Fourier coefficients");
        for(uint64_t i = 0; i < N; ++i) phase_check(jump.fourier_coefficients()[i], phase[i], i, angle[i]);
        for(int r = 0; r < reps; ++r) later(r), compare(jump(vec), phase, v, g, true);
    } else if(kind == 3) {
        const Chain lattice(N, dx);
        const hr::FermiJump1D_NO<double, Basis1> jump(lattice, ev);
        for(uint64_t i = 0; i < N; ++i) phase_check(jump.fourier_coefficient(i), phase[i], i, angle[i]);
        for(int r = 0; r < reps; ++r) later(r), compare(jump(vec), phase, v, g, false);
    } else {
        const Chain lattice(N, dx);
        const hr::FermiJump1D_NO<double, Basis3> jump(lattice, ev);
        for(uint64_t i = 0; i < N; ++i) phase_check(jump.fourier_coefficient(i), phase[i], i, angle[i]);
        for(int r = 0; r < reps; ++r) later(r), compare(jump(vec), phase, v, g, false);
    }
    for(size_t i = 0; i < v.size(); ++i)
        if(Complex(vec[i]) != v[i]) sim::fail("input", "coefficient %zu changed", i);
}

static void once()
{
    const int kind = int(sim::draw(0, 4));
    if(sim::chance(40))
        run<blaze::DynamicVector<Complex>>(kind);
    else
        run<std::vector<Complex>>(kind);
}

void sim::scenario() { rounds(once); }
