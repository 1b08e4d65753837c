// C06: in-place product with a function matrix
#include "common.hpp"
#include <cassert>
#ifdef USE_BLAZE
#include <blaze/math/DynamicVector.h>
#include "ieompp/types/blaze/multiply_assign.hpp"
#else
#include <Eigen/Dense>
#include "ieompp/types/eigen/multiply_assign.hpp"
#endif
#include "ieompp/types/function_matrix.hpp"

using namespace ieompp;

const sim::CheckInfo sim::info = {
#ifdef USE_BLAZE
    "C06", LARGER("multiply_assign_blaze"),
#else
    "C06", LARGER("multiply_assign_eigen"),
#endif
    ONE_RUN "scalar type (double, float, complex, integer; Eigen vectors also with a maximal size), size 1..40, matrix function (dense random, sparse, "
    "permutation), 1..3 products of possibly different sizes in a row, and thread count drawn",
    "multiply_assign, FunctionMatrix"
#ifndef USE_BLAZE
    ", Eigen vectors"
#endif
    ,
    "OpenMP runtime, pthreads and heap (simulated)"
#ifdef USE_BLAZE
    "; Blaze vectors (stand-in)"
#endif
};

void sim::zygote() {}

template <typename S>
struct Value {
    static S make(sim::Rng& r) { return S(r.sym()); }
    static double mag(const S& s) { return std::fabs(double(s)); }
};
template <>
struct Value<std::complex<double>> {
    static std::complex<double> make(sim::Rng& r)
    {
        const double a = r.sym();
        return {a, r.sym()};
    }
    static double mag(const std::complex<double>& s) { return std::abs(s); }
};
template <>
struct Value<int64_t> {
    static int64_t make(sim::Rng& r) { return int64_t(r.below(2001)) - 1000; }
    static double mag(int64_t s) { return std::fabs(double(s)); }
};

// MAX: vectors of limited size live outside the heap
template <typename S, int MAX = -1>
static void run(double rel)
{
#ifdef USE_BLAZE
    using Vec   = blaze::DynamicVector<S, blaze::columnVector>;
    using Index = std::size_t;
#else
    using Vec   = Eigen::Matrix<S, Eigen::Dynamic, 1, 0, MAX, 1>;
    using Index = Eigen::Index;
#endif
    const int T    = h::draw_threads();
    const int reps = int(sim::draw(1, 3));
    uint64_t n     = MAX > 0 ? uint64_t(sim::draw(1, MAX)) : h::draw_size(40, 150, 600, 1030);
    for(int rep = 0; rep < reps; ++rep) {
        if(rep && sim::chance(50)) n = MAX > 0 ? uint64_t(sim::draw(1, MAX)) : h::draw_size(40, 150, 600);
        const int kind    = int(sim::draw(0, 2));
        const uint64_t sd = sim::draw(0, 1 << 20);
        sim::note("n=%lu kind=%d threads=%d", n, kind, T);
        std::vector<S> m(n * n, S(0)), x(n), want(n, S(0));
        std::vector<double> scale(n, 0.);
        {
            sim::Quiet q;
            sim::Rng r(sd);
            for(auto& e : x) e = Value<S>::make(r);
            for(uint64_t i = 0; i < n; ++i)
                for(uint64_t j = 0; j < n; ++j) {
                    if(kind == 0) m[i * n + j] = Value<S>::make(r);
                    if(kind == 1 && r.coin(0.2)) m[i * n + j] = Value<S>::make(r);
                    if(kind == 2 && j == (i + 1) % n) m[i * n + j] = S(1);
                }
            for(uint64_t i = 0; i < n; ++i)
                for(uint64_t j = 0; j < n; ++j) {
                    want[i] += m[i * n + j] * x[j];
                    scale[i] += Value<S>::mag(m[i * n + j]) * Value<S>::mag(x[j]);
                }
        }
        const S* p = m.data();
        const types::FunctionMatrix<S, Index> f(n, n, [p, n](Index i, Index j) { return p[i * n + j]; });
        Vec v(n);
        for(uint64_t i = 0; i < n; ++i) v[i] = x[i];
        types::multiply_assign(f, v);
        sim::Quiet q;
        if(uint64_t(v.size()) != n) sim::fail("size", "vector has %lu elements instead of %lu", (unsigned long)v.size(), n);
        for(uint64_t i = 0; i < n; ++i) {
            sim::digest(Value<S>::mag(v[i]));
            const double d = Value<S>::mag(v[i] - want[i]);
            if(!(d <= rel * scale[i])) sim::fail("value", "n=%lu kind %d: row %lu is off by %g (scale %g)", n, kind, i, d, scale[i]);
        }
    }
}

static void once()
{
    switch(sim::draw(0, 4)) {
        case 0: run<float>(1e-4); break;
        case 1: run<int64_t>(0.); break;
        case 2: run<std::complex<double>>(1e-12); break;
#ifndef USE_BLAZE
        case 3:
            if(sim::chance(30)) return run<double, 24>(1e-12);
#endif
        default: run<double>(1e-12);
    }
}

void sim::scenario() { h::rounds(once); }
