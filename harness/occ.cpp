// C01: site occupation
#include "model.hpp"
#include <blaze/math/DynamicVector.h>
#include "ieompp/models/hubbard_real_space/expectation_value.hpp"
#include "ieompp/models/hubbard_real_space/site_occupation.hpp"

using namespace ieompp;
namespace hr = models::hubbard_real_space;
using namespace h;

const sim::CheckInfo sim::info = {
    "C01", LARGER("site_occupation"),
    ONE_RUN "basis (1 operator, N=1..14; 3 operators, N=1..4, with or without inversion symmetry), expectation values "
    "(library tables on chain or square lattice, or random symmetric), coefficient vector (unit, real, imaginary, "
    "complex, sparse, widely scaled; std::vector or DynamicVector) and thread count 1..64 drawn; the vector may change between evaluations",
    "SiteOccupation, Basis1Operator, Basis3Operator, get_conjugate, ExpectationValue1D/2DHalfFilled, lattices, complex helpers",
    "OpenMP runtime, pthreads and heap (simulated); Blaze vectors (stand-in)"};

void sim::zygote() {}

template <typename Vector, typename Basis, typename Lattice, typename Prepare>
static void run(const Lattice& lattice, const Table& g, std::vector<Complex> v, bool three, Prepare prepare)
{
    const uint64_t N = lattice.size();
    const Basis basis(lattice);
    const auto conj = basis.get_conjugate();
    Vector vec(v.size());
    for(size_t i = 0; i < v.size(); ++i) vec[i] = v[i];
    hr::SiteOccupation<double, Basis> obs{
        [&g](const Operator& a, const Operator& b) { return g(a.index1, b.index1); }, std::cref(basis), std::cref(conj)};
    prepare(obs);
    const int reps = v.size() > 1000 ? 1 : int(sim::draw(1, 3));
    for(int r = 0; r < reps; ++r) {
        if(r && sim::chance(50)) { // the same vector at a later time
            sim::probe("refilled");
            renew(v);
            for(size_t i = 0; i < v.size(); ++i) vec[i] = v[i];
        }
        const double got = obs(vec);
        sim::Quiet q;
        double scale;
        const double want = occupation(g, N, three, v, &scale);
        sim::digest(got);
        sim::check_close("value", got, want, scale, 1e-9);
        for(size_t i = 0; i < v.size(); ++i)
            if(Complex(vec[i]) != v[i]) sim::fail("input", "coefficient %zu changed", i);
    }
}
template <typename Vector, typename Lattice>
static void run_any(const Lattice& lattice, const Table& g, const std::vector<Complex>& v, bool three, bool exploit)
{
    if(!three)
        run<Vector, Basis1>(lattice, g, v, false, [](hr::SiteOccupation<double, Basis1>&) {});
    else // the default is to exploit the symmetry
        run<Vector, Basis3>(lattice, g, v, true, [exploit](hr::SiteOccupation<double, Basis3>& o) {
            if(!exploit) o.exploit_inversion_symmetry = false;
        });
}

static void once()
{
    const int kind     = int(sim::draw(0, 5));
    const bool three   = kind >= 2, exploit = kind < 4;
    const bool square  = sim::chance(25);
    const bool blazev  = sim::chance(40);
    uint64_t Nx, Ny = 1;
    if(!three) {
        Nx = square ? draw_size(4, 4, 20) : draw_size(14, 48, 400, 1030);
        if(square) Ny = draw_size(4, 4, 20);
    } else if(square) {
        Nx = sim::draw(1, 2);
        Ny = sim::draw(1, 2);
    } else
#ifdef LARGE
        Nx = sim::chance(3) ? 10 : sim::draw(3, 6);
#else
        Nx = sim::chance(15) ? (sim::thorough() && sim::chance(20) ? 5 : 4) : sim::draw(1, 3);
#endif
    const uint64_t N = Nx * Ny;
    const int T      = draw_threads();
    auto g           = draw_table(N);
    const auto v     = draw_vec(three ? N + N * N * N : N);
    sim::note("%s %s %lux%lu threads=%d exploit=%d", three ? "3op" : "1op", square ? "square" : "chain", Nx, Ny, T, exploit);
    if(square) {
        const Square lattice(Nx, Ny, 1., 1.);
        if(sim::chance(50)) { // expectation values of the library
            const hr::ExpectationValue2DHalfFilled<double, Square> ev(lattice);
            for(uint64_t i = 0; i < N; ++i)
                for(uint64_t j = 0; j < N; ++j) g.g[i * N + j] = ev(i, j);
        }
        run_any<std::vector<Complex>>(lattice, g, v, three, exploit);
    } else {
        const Chain lattice(N, 1.);
        if(blazev)
            run_any<blaze::DynamicVector<Complex>>(lattice, g, v, three, exploit);
        else
            run_any<std::vector<Complex>>(lattice, g, v, three, exploit);
    }
}

void sim::scenario() { rounds(once); }
