// C11 / C13: the momentum-space program
#include "prog.hpp"

extern "C" int prog_momentum_1d_rk4(int, char**);

using namespace h;

const sim::CheckInfo sim::info = {
#ifdef DISK
    "C13", "disk_momentum",
    "one run: the momentum-space program with drawn parameters runs undisturbed, then again up to three times with a drawn "
    "plan of file faults; its matrix file and header must be complete whenever it reports success",
#else
    "C11", "momentum",
    "one run: the momentum-space program with drawn parameters and thread count; printed particle numbers and matrix file "
    "compared with an independent calculation",
#endif
    "program momentum_1d_rk4 with everything it uses", "OpenMP runtime, heap, files (simulated); Blaze types and spdlog (stand-ins)"};

void sim::zygote() {}

namespace
{
    const std::string name = "hubbard_momentum_1d_rk4";
    struct Momentum {
        uint64_t N = 6;
        double J = 1., U = 1., dt = 0.01;
        std::vector<std::string> args;
        struct Element {
            uint64_t k1, k2, k3;
        };
        std::vector<Element> basis; // without the first, single operator
        uint64_t q;
        double energy(uint64_t k) const { return -2. * J * std::cos(-PI + 2. * PI / double(N) * double(k)); }
        bool full(uint64_t k) const { return energy(k) < 0.; }
        size_t dim() const { return N * N + 1; }
    };
    Momentum draw_momentum()
    {
        // sizes without a momentum on the Fermi surface
        static const uint64_t Ns[]    = {1, 2, 3, 5, 6, 7};
        static const char* const Js[] = {"1", "0.5", "-1.3", "2"};
        static const char* const Us[] = {"1", "4", "0", "-2"};
        static const char* const ds[] = {"0.01", "0.125", "0.05"};
        Momentum m;
        m.N    = Ns[sim::draw(0, sim::thorough() ? 5 : 4)];
        m.args = {"--N=" + std::to_string(m.N)};
        std::string v;
        if(sim::chance(60)) {
            m.J = pick(Js, 4, &v);
            m.args.push_back("--J=" + v);
        }
        if(sim::chance(60)) {
            m.U = pick(Us, 4, &v);
            m.args.push_back("--U=" + v);
        }
        if(sim::chance(60)) {
            m.dt = pick(ds, 3, &v);
            m.args.push_back("--dt=" + v);
        }
        m.q = m.N / 2;
        for(uint64_t a = 0; a < m.N; ++a)
            for(uint64_t b = 0; b < m.N; ++b) {
                // momenta are -pi + 2 pi i / N
                // k1 + k2 - q as an index: the offsets cancel
                m.basis.push_back({a, b, (a + b + m.N - m.q) % m.N});
            }
        return m;
    }
    // (row, column, value) without the factor i
    void matrix(const Momentum& m, std::vector<double>& M)
    {
        const size_t d = m.dim();
        M.assign(d * d, 0.);
        M[0] = m.energy(m.q) + m.U / 2.;
        for(size_t i = 1; i < d; ++i) {
            const auto& e = m.basis[i - 1];
            M[i]          = m.U / (2. * double(m.N));
            M[i * d]      = m.U / (2. * double(m.N));
            M[i * d + i]  = m.energy(e.k1) + m.energy(e.k2) - m.energy(e.k3) + m.U / 2.;
        }
    }
    double particle_number(const Momentum& m, const std::vector<Complex>& u, double* scale)
    {
        // every element is c^+_{k1 up} (2 c^+_{k2 down} c_{k3 down} + delta); the first one is c^+_{q up}
        double sum = 0.;
        *scale     = 0.;
        auto part  = [&](size_t i) { return m.basis[i - 1]; };
        for(size_t i = 0; i < m.dim(); ++i)
            for(size_t j = 0; j < m.dim(); ++j) {
                const uint64_t ki = i ? part(i).k1 : m.q, kj = j ? part(j).k1 : m.q;
                if(ki != kj || !m.full(ki)) continue;
                double v = 0.;
                auto one = [&](size_t a) { return part(a).k2 == part(a).k3 ? 2. * m.full(part(a).k2) + 1. : 0.; }; // <2 c^+ c + delta>
                if(!i && !j)
                    v = 1.;
                else if(!i)
                    v = one(j);
                else if(!j)
                    v = one(i);
                else {
                    v = one(i) * one(j);
                    if(part(i).k2 == part(j).k2 && part(i).k3 == part(j).k3) v += 4. * m.full(part(i).k2) * (1. - m.full(part(i).k3));
                }
                sum += v * (u[i] * std::conj(u[j])).real();
                *scale += v * std::abs(u[i]) * std::abs(u[j]);
            }
        return sum;
    }
    void check_matrix(const std::string& what, const Momentum& m, const std::string& file)
    {
        std::vector<double> M;
        matrix(m, M);
        const size_t d = m.dim();
        size_t p       = 2;
        auto get = [&](void* x, size_t n) {
            if(p + n > file.size()) sim::fail("matrix", "%s: the matrix file ends after %zu bytes", what.c_str(), file.size());
            std::memcpy(x, file.data() + p, n);
            p += n;
        };
        uint64_t rows, cols, nnz, total = 0;
        get(&rows, 8), get(&cols, 8), get(&nnz, 8);
        if(rows != d || cols != d) sim::fail("matrix", "%s: %lux%lu matrix in the file", what.c_str(), rows, cols);
        for(size_t i = 0; i < d; ++i) {
            uint64_t n, k;
            get(&n, 8);
            std::vector<Complex> row(d);
            total += n;
            while(n--) {
                double z[2];
                get(&k, 8), get(z, 16);
                if(k >= d) sim::fail("matrix", "%s: column %lu in row %zu", what.c_str(), k, i);
                row[k] = Complex(z[0], z[1]);
            }
            for(size_t j = 0; j < d; ++j)
                if(!(std::abs(row[j] - Complex(0., M[i * d + j])) <= 1e-9 * (1. + std::fabs(m.J) + std::fabs(m.U))))
                    sim::fail("matrix", "%s: element (%zu, %zu) is %g%+gi instead of %gi", what.c_str(), i, j, row[j].real(), row[j].imag(),
                              M[i * d + j]);
        }
        if(total != nnz || p != file.size()) sim::fail("matrix", "%s: matrix file of an odd size", what.c_str());
    }
    void check_print(const std::string& what, const Momentum& m, const std::string& out)
    {
        std::vector<double> M;
        matrix(m, M);
        const size_t d = m.dim();
        std::vector<Complex> u(d);
        u[0] = 1.;
        auto f = [&](const std::vector<Complex>& x) {
            std::vector<Complex> r(d);
            for(size_t i = 0; i < d; ++i)
                for(size_t j = 0; j < d; ++j)
                    if(M[i * d + j] != 0.) r[i] += Complex(0., M[i * d + j]) * x[j];
            return r;
        };
        auto plus = [&](const std::vector<Complex>& k, double a) {
            auto x = u;
            for(size_t i = 0; i < d; ++i) x[i] += a * k[i];
            return x;
        };
        const char* p = out.c_str();
        for(int line = 0; line < 2; ++line) {
            double scale;
            const double want = particle_number(m, u, &scale);
            char* e;
            const double got = std::strtod(p, &e);
            if(e == p || *e != '\n' || !(std::fabs(got - want) <= 1.01e-5 * std::fabs(want) + 1e-9 * scale + 1e-300))
                sim::fail("print", "%s: line %d of the output is \"%.40s\" instead of %.9g", what.c_str(), line, p, want);
            p = e + 1;
            for(int s = 0; s < 8; ++s) {
                const auto k1 = f(u), k2 = f(plus(k1, m.dt / 2)), k3 = f(plus(k2, m.dt / 2)), k4 = f(plus(k3, m.dt));
                for(size_t i = 0; i < d; ++i) u[i] += m.dt / 6. * (k1[i] + 2. * k2[i] + 2. * k3[i] + k4[i]);
            }
        }
    }
} // namespace

void sim::scenario()
{
    const auto m = draw_momentum();
    sim::ProcSpec spec;
    spec.max_threads     = draw_threads();
    spec.simulate_stdout = true;
    const auto base     = name + " " + join(m.args) + " threads=" + std::to_string(spec.max_threads);
    const auto matrix_f = name + "_matrix.blaze";
    sim::note("%s", base.c_str());
    leave_old(matrix_f);
    leave_old(name + ".txt");
    const auto dry = run_program(prog_momentum_1d_rk4, name, m.args, spec);
    if(!dry.exited || dry.exit_status != 0) sim::fail("exit", "%s: %s", base.c_str(), describe(dry).c_str());
    {
        sim::Quiet q;
        check_matrix(base, m, sim::slurp(matrix_f));
        check_print(base, m, dry.out);
    }
    const auto full = sim::slurp(name + ".txt");
    if(header_text(full).empty() || header_text(full) != full) sim::fail("header", "%s: odd output file", base.c_str());
    sim::digest(dry.out.data(), dry.out.size());
#ifdef DISK
    const int passes = int(sim::draw(1, 3));
    for(int k = 0; k < passes; ++k) {
        auto s          = spec;
        const bool oom  = sim::chance(20), hard = oom || sim::chance(75);
        const auto what = base + (oom ? draw_out_of_memory(s, dry.allocs) : draw_plan(s.io, dry.ops, hard));
        sim::note("%s", what.c_str());
        leave_old(matrix_f);
        leave_old(name + ".txt");
        const auto r = run_program(prog_momentum_1d_rk4, name, m.args, s);
        check_ending(what, r, hard);
        if(r.exited && r.exit_status == 0) {
            sim::Quiet q;
            check_matrix(what, m, sim::slurp(matrix_f));
            check_print(what, m, r.out);
            if(sim::slurp(name + ".txt") != full) sim::fail("header", "%s: success, but the header is not complete", what.c_str());
        }
    }
#endif
}
