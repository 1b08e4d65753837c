// Shared by the harnesses: generators, independent references, comparison helpers.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include "sim.h"

#include <array>
#include <cmath>
#include <complex>
#include <cstdint>
#include <string>
#include <vector>

namespace h
{
    using Complex = std::complex<double>;
    static const double PI = 3.14159265358979323846264338327950288;

#ifdef LARGE
#define LARGER(name) name "_large"
#define ONE_RUN "one run, with switches at runtime calls only and extents far beyond those below: "
#else
#define LARGER(name) name
#define ONE_RUN "one run: "
#endif
    // nthreads-var of the run: small teams are most likely, big ones appear regularly
    inline int draw_threads()
    {
        static const int table[] = {1, 2, 3, 4, 2, 3, 4, 5, 6, 7, 8, 12, 16, 24, 33, 64};
        int n                    = table[sim::draw(0, 15)];
#ifdef LARGE
        if(sim::chance(4)) n = int(sim::draw(65, 1000));
#else
        if(sim::chance(1)) n = int(sim::draw(65, sim::thorough() ? 1000 : 300));
#endif
        sim::set_max_threads(n);
        return n;
    }

    // an extent: mostly small, now and then far beyond any plausible threshold
#ifdef LARGE // switches at runtime calls only, so that the extents can be much larger
    // immense: enough for more than 2^16 elements of whatever there is one of per site, pair or triple
    inline uint64_t draw_size(int64_t, int64_t large, int64_t huge, int64_t immense = 0)
    {
        if(immense && sim::chance(1)) {
            sim::probe("immense");
            return uint64_t(sim::draw(immense, immense + immense / 10));
        }
        return uint64_t(sim::chance(70) ? sim::draw(1, huge) : sim::draw(1, large));
    }
#else
    inline uint64_t draw_size(int64_t usual, int64_t large, int64_t, int64_t = 0)
    {
        return uint64_t(sim::chance(5) ? sim::draw(1, large) : sim::draw(1, usual));
    }
#endif
    // one or several independent uses within one process
    template <typename F>
    inline void rounds(F f)
    {
        const int n = sim::chance(70) ? 1 : int(sim::draw(2, 4));
        for(int i = 0; i < n; ++i) {
            if(i) sim::probe("several-uses");
            if(i && sim::chance(40)) sim::heap_reuse();
            f();
        }
        sim::heap_check("memory");
    }

    inline double draw_real(double lo, double hi)
    {
        // recorded as an integer so that it can be minimised and replayed
        const auto v = sim::draw(0, 1000000);
        return lo + (hi - lo) * (double(v) / 1000000.);
    }

    // vectors are derived from one recorded draw
    enum VecKind { V_UNIT, V_REAL, V_IMAG, V_COMPLEX, V_SPARSE, V_WIDE, V_NKINDS };
    inline std::vector<Complex> make_vec(size_t n, int kind, uint64_t seed)
    {
        sim::Rng r(seed * 7919 + kind);
        std::vector<Complex> v(n, Complex(0., 0.));
        switch(kind) {
            case V_UNIT: v[r.below(n)] = Complex(1., 0.); break;
            case V_REAL:
                for(auto& x : v) x = Complex(r.sym(), 0.);
                break;
            case V_IMAG:
                for(auto& x : v) x = Complex(0., r.sym());
                break;
            case V_SPARSE:
                for(auto& x : v)
                    if(r.coin(0.15)) x = Complex(r.sym(), r.sym());
                break;
            case V_WIDE:
                for(auto& x : v) {
                    const double m = std::pow(10., r.sym() * 3.);
                    x              = Complex(r.sym() * m, r.sym() * m);
                }
                break;
            default:
                for(auto& x : v) x = Complex(r.sym(), r.sym());
        }
        return v;
    }
    inline std::vector<Complex> draw_vec(size_t n)
    {
        const int kind = int(sim::draw(0, V_NKINDS - 1));
        const auto s   = uint64_t(sim::draw(0, 1 << 20));
        return make_vec(n, kind, s);
    }

    // other contents of the same vector: new ones, the old ones in another order, or one element changed
    inline void renew(std::vector<Complex>& v)
    {
        const int how = int(sim::draw(0, 2));
        if(v.empty()) return;
        const auto i = size_t(sim::draw(0, int64_t(v.size()) - 1)), j = size_t(sim::draw(0, int64_t(v.size()) - 1));
        if(how == 0) {
            const auto w = draw_vec(v.size());
            std::copy(w.begin(), w.end(), v.begin());
        } else if(how == 1)
            std::swap(v[i], v[j]);
        else
            v[i] = v[i] == Complex(1., -.5) ? Complex(-.25, 2.) : Complex(1., -.5);
    }

    // ------------------------------------------------------ closed forms
    inline uint64_t dist(uint64_t a, uint64_t b, uint64_t n)
    {
        const uint64_t d = a > b ? a - b : b - a;
        return d < n - d ? d : n - d;
    }
    inline double ev1d(uint64_t d, double filling, double k_F, double dx)
    {
        return d == 0 ? filling : std::sin(k_F * double(d) * dx) / (PI * double(d) * dx);
    }
    inline double ev2d(uint64_t dx, uint64_t dy)
    {
        const double s = double(dx + dy), d = std::fabs(double(dx) - double(dy));
        if(dx == 0 && dy == 0) return 0.5;
        if(dx == dy) return std::sin(PI / 2 * s) / (PI * s);
        return 2. / (PI * PI) * (std::sin(PI / 2 * s) / s) * (std::sin(PI / 2 * d) / d);
    }
} // namespace h
#endif
