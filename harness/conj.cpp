// C05: conjugate bases
#include "model.hpp"
#include "ieompp/models/hubbard_momentum_space/basis.hpp"

using namespace ieompp;
using namespace h;
using Momentum3 = models::hubbard_momentum_space::Basis3Operator<Monomial>;

const sim::CheckInfo sim::info = {
    "C05", LARGER("conjugate_basis"),
    ONE_RUN "kind of basis (real-space one/three operators, momentum-space three operators on chain or square momentum "
    "space), size, in-place or copying conjugation, and thread count drawn; all elements compared",
    "Basis1Operator, Basis3Operator (real and momentum space), get_conjugate, conjugate, Monomial, Operator, lattices",
    "OpenMP runtime, pthreads and heap (simulated); StaticVector of Blaze (stand-in)"};

void sim::zygote() {}

using Plain = std::vector<std::vector<std::array<uint64_t, 3>>>;
template <typename Basis>
static Plain plain(const Basis& b)
{
    Plain p;
    for(const auto& m : b) {
        p.emplace_back();
        for(const auto& o : m) p.back().push_back({{uint64_t(o.creator), uint64_t(o.index1), uint64_t(o.index2)}});
    }
    return p;
}
static Plain conjugated(const Plain& p)
{
    Plain r;
    for(const auto& m : p) {
        r.emplace_back();
        for(size_t i = m.size(); i-- > 0;) r.back().push_back({{m[i][0] ? 0ull : 1ull, m[i][1], m[i][2]}});
    }
    return r;
}
static void same(const char* cls, const Plain& got, const Plain& want)
{
    if(got.size() != want.size()) sim::fail(cls, "%zu elements instead of %zu", got.size(), want.size());
    for(size_t i = 0; i < got.size(); ++i) {
        if(got[i] != want[i]) sim::fail(cls, "element %zu of %zu differs", i, want.size());
        for(const auto& o : got[i]) sim::digest(o[0] * 1000003 + o[1] * 2 + o[2]);
    }
}

template <typename Basis>
static void copying(const Basis& basis, const Plain& want)
{
    Plain orig;
    {
        sim::Quiet q;
        orig = plain(basis);
    }
    same("basis", orig, want);
    const Basis conj = basis.get_conjugate();
    {
        sim::Quiet q;
        same("conjugate", plain(conj), conjugated(orig));
        same("original", plain(basis), orig);
        if(conj.N != basis.N) sim::fail("conjugate", "N changed");
    }
    if(sim::chance(30)) {
        const Basis twice = conj.get_conjugate();
        sim::Quiet q;
        same("twice", plain(twice), orig);
        same("original", plain(conj), conjugated(orig));
    }
}

static void once()
{
    const int kind = int(sim::draw(0, 4));
    const int T    = draw_threads();
    if(kind <= 1) {
        const bool square = sim::chance(25);
        uint64_t Nx = square ? (kind == 0 ? draw_size(6, 6, 40) : draw_size(2, 2, 4)) : kind == 0 ? draw_size(40, 400, 4000, 65000) : draw_size(6, 9, 20, 41), Ny = 1;
        if(square) Ny = kind == 0 ? draw_size(6, 6, 40) : draw_size(3, 3, 4);
        const uint64_t N = Nx * Ny;
        sim::note("real %dop %lux%lu threads=%d", kind ? 3 : 1, Nx, Ny, T);
        Plain want;
        {
            sim::Quiet q;
            for(uint64_t i = 0; i < N; ++i) want.push_back({{{1, i, 1}}});
            if(kind)
                for(uint64_t i = 0; i < N; ++i)
                    for(uint64_t j = 0; j < N; ++j)
                        for(uint64_t k = 0; k < N; ++k) want.push_back({{{1, i, 1}}, {{1, j, 0}}, {{0, k, 0}}});
        }
        if(square) {
            const Square l(Nx, Ny, 1., 1.);
            if(kind == 0)
                copying(Basis1(l), want);
            else
                copying(Basis3(l), want);
        } else {
            const Chain l(N, 1.);
            if(kind == 0)
                copying(Basis1(l), want);
            else
                copying(Basis3(l), want);
        }
    } else {
        const bool square = kind == 4;
        const uint64_t Nx = square ? draw_size(4, 4, 8) : draw_size(10, 10, 70, 256), Ny = square ? draw_size(4, 4, 8) : 1, N = Nx * Ny;
        const uint64_t q  = sim::draw(0, N - 1);
        sim::note("momentum %lux%lu q=%lu threads=%d", Nx, Ny, q, T);
        Plain want;
        {
            sim::Quiet qq;
            want.push_back({{{1, q, 1}}});
            // momentum of index i is -pi + 2 pi i / N per direction; k3 = k1 + k2 - q modulo 2 pi
            for(uint64_t a = 0; a < N; ++a)
                for(uint64_t b = 0; b < N; ++b) {
                    const uint64_t x = (a / Ny + b / Ny + Nx - q / Ny) % Nx, y = (a % Ny + b % Ny + Ny - q % Ny) % Ny;
                    want.push_back({{{1, a, 1}}, {{1, b, 0}}, {{0, x * Ny + y, 0}}});
                }
        }
        auto go = [&](Momentum3 basis) {
            if(sim::chance(50)) {
                copying(basis, want);
            } else {
                basis.conjugate();
                {
                    sim::Quiet qq;
                    same("in-place", plain(basis), conjugated(want));
                }
                if(sim::chance(50)) {
                    basis.conjugate();
                    sim::Quiet qq;
                    same("in-place-twice", plain(basis), want);
                }
            }
        };
        if(square)
            go(Momentum3(q, Square(Nx, Ny)));
        else
            go(Momentum3(q, Chain(N)));
    }
}

void sim::scenario() { rounds(once); }
