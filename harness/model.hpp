// Operators, bases and expectation-value functions shared by the observable harnesses.
#ifndef VERIF_MODEL_HPP
#define VERIF_MODEL_HPP
#include "common.hpp"
#include <numeric>
#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"
#include "ieompp/models/hubbard_real_space/basis.hpp"

namespace h
{
    using Operator = ieompp::algebra::Operator<uint64_t, bool>;
    using Monomial = ieompp::algebra::Monomial<Operator>;
    using Basis1   = ieompp::models::hubbard_real_space::Basis1Operator<Monomial>;
    using Basis3   = ieompp::models::hubbard_real_space::Basis3Operator<Monomial>;
    using Chain    = ieompp::lattices::PeriodicChain<double, uint64_t>;
    using Square   = ieompp::lattices::PeriodicSquareLattice<double, uint64_t>;

    // two-operator expectation values <c_i^+ c_j> of a run: a symmetric table
    struct Table {
        uint64_t n;
        std::vector<double> g;
        double operator()(uint64_t i, uint64_t j) const { return g[i * n + j]; }
    };
    // kind 0: half-filled chain, 1: random symmetric, 2: random, decaying, 3: diagonal
    inline Table make_table(uint64_t n, int kind, uint64_t seed)
    {
        Table t{n, std::vector<double>(n * n, 0.)};
        sim::Rng r(seed + 17);
        for(uint64_t i = 0; i < n; ++i)
            for(uint64_t j = 0; j <= i; ++j) {
                double v = 0.;
                switch(kind) {
                    case 0: v = ev1d(dist(i, j, n), 0.5, PI / 2, 1.); break;
                    case 1: v = r.sym(); break;
                    case 2: v = r.sym() * std::exp(-double(i - j)); break;
                    default: v = i == j ? r.unit() : 0.;
                }
                t.g[i * n + j] = t.g[j * n + i] = v;
            }
        return t;
    }
    inline Table draw_table(uint64_t n)
    {
        const int kind = int(sim::draw(0, 3));
        return make_table(n, kind, uint64_t(sim::draw(0, 1 << 20)));
    }

    // reference: expectation value of a pair of basis elements (one or three operators), written
    // down from Wick's theorem; an element is (i) or (i, j, k) = c_i,up^+ [c_j,dn^+ c_k,dn]
    struct Elem {
        bool three;
        uint64_t i, j, k;
    };
    inline Elem elem(uint64_t idx, uint64_t n)
    {
        if(idx < n) return {false, idx, 0, 0};
        idx -= n;
        return {true, idx / (n * n), idx / n % n, idx % n};
    }
    inline double pair_ev(const Table& g, const Elem& a, const Elem& b)
    {
        const double up = g(a.i, b.i);
        auto M          = [&](const Elem& e) { return 2. * g(e.j, e.k) - (e.j == e.k ? 1. : 0.); };
        if(!a.three && !b.three) return 2. * up;
        if(!a.three) return 2. * up * M(b);
        if(!b.three) return 2. * up * M(a);
        // <N N'> = (mean)(mean') + exchange
        const double exchange = 4. * g(a.j, b.j) * ((a.k == b.k ? 1. : 0.) - g(b.k, a.k));
        return 2. * up * (M(a) * M(b) + exchange);
    }
    // sum over all pairs of coefficient * conjugate coefficient * half the expectation value
    template <typename V>
    inline double occupation(const Table& g, uint64_t n, bool three, const V& v, double* scale)
    {
        const uint64_t dim = three ? n + n * n * n : n;
        long double re     = 0.;
        double sc          = 0.;
        for(uint64_t a = 0; a < dim; ++a)
            for(uint64_t b = 0; b < dim; ++b) {
                const Complex p = Complex(v[a]) * std::conj(Complex(v[b]));
                const double e  = pair_ev(g, elem(a, n), elem(b, n)) / 2.;
                re += (long double)(p.real()) * e;
                sc += std::abs(p) * std::fabs(e);
            }
        *scale = sc;
        return double(re);
    }
} // namespace h
#endif
