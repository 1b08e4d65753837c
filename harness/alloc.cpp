// C09: failing allocations
#include "jobs.hpp"
#include <new>

using namespace h;

const sim::CheckInfo sim::info = {
    "C09", "alloc",
    "one run: one of 29 kinds of library work or of 17 kinds of operator algebra, composed texts and the description of the platform with drawn sizes and inputs; the allocations "
    "of building, evaluating or copying are counted in a first undisturbed execution, then the drawn one (or it and the "
    "next ones, or it and all later ones) fails, possibly several times in a row; afterwards everything is repeated with memory",
    "bases, lattices, RK4, multiply_assign, SiteOccupation, FermiJump1D/2D/_NO, Dispersion, ExpectationValue1D/2D, "
    "Monomial, Term, commutate, anticommutator, Prefactor, compose, Platform",
    "OpenMP runtime and heap (simulated); Blaze types (stand-in)"};

void sim::zygote() {}

// ------------------------------------------------------------------ faults
// arm a failure among n allocations; false if there is none to fail
static bool arm(uint64_t n)
{
    if(!n) return false;
    const uint64_t nth = uint64_t(sim::draw(1, int64_t(n)));
    const int how      = int(sim::draw(0, 3));
    sim::heap_fail_at(nth, how <= 1 ? 1 : how == 2 ? 2 + nth % 3 : 1000000000);
    return true;
}
enum Got { NORMAL, BAD_ALLOC };
template <typename F>
static Got guarded(const char* what, const F& f)
{
    Got r = NORMAL;
    try {
        f();
    } catch(const std::bad_alloc&) {
        r = BAD_ALLOC;
        sim::heap_fail_off();
    } catch(const std::exception& e) {
        sim::heap_fail_off();
        sim::fail("report", "%s: another exception than bad_alloc: %s", what, e.what());
    } catch(...) {
        sim::heap_fail_off();
        sim::fail("report", "%s: unknown exception", what);
    }
    sim::heap_fail_off();
    if(r == BAD_ALLOC && !sim::heap_fault_fired()) sim::fail("report", "%s: bad_alloc although no allocation failed", what);
    return r;
}
template <typename F>
static uint64_t count(const F& f)
{
    sim::heap_fail_at(0, 0);
    f();
    const auto n = sim::heap_allocs();
    sim::heap_fail_off();
    return n;
}
static bool g_leaks = true; // look for leaks
static void no_leak(const char* what, sim::HeapMark m)
{
    if(!g_leaks) return;
    const size_t n = sim::heap_live_since(m);
    if(n) sim::fail("leak", "%s: %zu blocks still allocated", what, n);
}

template <typename B>
static void basis_unchanged(const char* what, const B& b, uint64_t n, bool three, bool conj)
{
    bool ok = b.size() == (three ? n + n * n * n : n);
    for(uint64_t i = 0; ok && i < b.size(); ++i) {
        const Elem e = elem(i, n);
        std::vector<uint64_t> w, g;
        auto code = [](bool c, uint64_t k, bool up) { return uint64_t(c) + 2 * k + 100000 * uint64_t(up); };
        w         = {code(true, e.i, true)};
        if(e.three) {
            w.push_back(code(true, e.j, false));
            w.push_back(code(false, e.k, false));
        }
        if(conj) {
            std::reverse(w.begin(), w.end());
            for(auto& c : w) c ^= 1;
        }
        for(auto& o : b[i]) g.push_back(op_code(o));
        ok = g == w;
    }
    if(!ok) sim::fail("input", "%s: the %sbasis changed", what, conj ? "conjugate " : "");
}
static void inputs_unchanged(const World& w, const std::vector<Complex>& vec)
{
    sim::Quiet q;
    const char* what = job_names[w.p.kind];
    const uint64_t n = w.p.n * w.p.m;
    if(w.vec != vec) sim::fail("input", "%s: the vector changed", what);
    if(w.b1) basis_unchanged(what, *w.b1, n, false, false);
    if(w.c1) basis_unchanged(what, *w.c1, n, false, true);
    if(w.b3) basis_unchanged(what, *w.b3, n, true, false);
    if(w.c3) basis_unchanged(what, *w.c3, n, true, true);
}

static void library()
{
    const int T  = draw_threads();
    const auto p = draw_params(int(sim::draw(0, J_NALLOC - 1)));
    const int phase = int(sim::draw(0, 3));
    static const char* const names[] = {"build", "evaluate", "copy", "all"};
    sim::note("%s n=%lu m=%lu threads=%d phase=%s", job_names[p.kind], p.n, p.m, T, names[phase]);
    Outcome o;
    {
        sim::Quiet q;
        o.got.reserve(1 << 14);
    }
    // without the undisturbed execution the very first use of the code can fail; what is kept for
    // the rest of the process (function-local statics) is then no leak
    const bool first = sim::chance(30);
    uint64_t nbuild  = 30, neval = 12, ncopy = 12;
    if(first) {
        g_leaks = false;
    } else {
        World dry(p);
        nbuild = count([&] { dry.build(); });
        neval  = count([&] { evaluate(dry, o); });
        ncopy  = count([&] { dry.copy_objects(); });
    }
    const int rounds = int(sim::draw(1, 3));
    const auto start = sim::heap_mark();
    bool fired = false;
    if(phase == 0 || phase == 3) {
        for(int r = 0; r < rounds; ++r) {
            const auto m = sim::heap_mark();
            {
                World w(p);
                const auto vec = w.vec;
                if(arm(nbuild) && guarded(job_names[p.kind], [&] { w.build(); }) == NORMAL) {
                    evaluate(w, o);
                    compare("unreported", w, o);
                }
                fired |= sim::heap_fault_fired();
                inputs_unchanged(w, vec);
            }
            no_leak(job_names[p.kind], m);
        }
    }
    {
        World w(p);
        const auto vec = w.vec;
        w.build();
        for(int r = 0; r < rounds && phase != 0; ++r) {
            if(phase != 2) {
                const auto m = sim::heap_mark();
                if(arm(neval) && guarded(job_names[p.kind], [&] { evaluate(w, o); }) == NORMAL) compare("unreported", w, o);
                fired |= sim::heap_fault_fired();
                no_leak(job_names[p.kind], m);
                inputs_unchanged(w, vec);
            }
            if(phase != 1) {
                if(arm(ncopy) && guarded(job_names[p.kind], [&] { w.copy_objects(); }) == NORMAL) {
                    evaluate(w, o);
                    compare("unreported", w, o);
                }
                fired |= sim::heap_fault_fired();
                inputs_unchanged(w, vec);
            }
        }
        evaluate(w, o);
        compare("repeat", w, o);
        inputs_unchanged(w, vec);
    }
    no_leak(job_names[p.kind], start);
    if(fired) sim::probe("fired-in-library");
}

static void algebra()
{
    const int kind = int(sim::draw(0, A_NALLOC - 1));
    const auto seed = uint64_t(sim::draw(0, 1 << 20));
    sim::note("%s", algebra_names[kind]);
    if(kind == A_PLATFORM) g_leaks = false; // keeps its texts
    const auto start = sim::heap_mark();
    {
        uint64_t n = 12;
        if(sim::chance(30)) {
            g_leaks = false;
        } else {
            AlgebraWorld dry(kind, seed);
            AlgebraWorld::Result res;
            n = count([&] { dry.run(res); });
            dry.result_is_right(res);
        }
        AlgebraWorld w(kind, seed);
        AlgebraWorld::Result res;
        const int rounds = int(sim::draw(1, 4));
        for(int r = 0; r < rounds; ++r) {
            if(!arm(n)) break;
            const auto got = guarded(algebra_names[kind], [&] { w.run(res); });
            if(got == NORMAL) w.result_is_right(res);
            w.inputs_unchanged();
        }
        w.run(res);
        w.result_is_right(res);
        w.inputs_unchanged();
    }
    no_leak(algebra_names[kind], start);
}

void sim::scenario()
{
    g_leaks = true;
    if(sim::chance(30))
        algebra();
    else
        library();
    sim::heap_check("memory");
}
