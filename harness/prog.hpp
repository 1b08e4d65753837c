// The programs of /repo as simulated processes: parameters, argument lists, reference rows.
#ifndef VERIF_PROG_HPP
#define VERIF_PROG_HPP
#include "model.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <functional>

extern "C" {
int prog_real_1d_rk4(int, char**);
int prog_real_1d_rk4_coefficients(int, char**);
int prog_real_1d_rk4_jump(int, char**);
int prog_real_1d_kinetic_rk4(int, char**);
int prog_real_1d_kinetic_rk4_coefficients(int, char**);
int prog_real_2d_rk4_jump(int, char**);
}

namespace h
{
    enum Prog { P_RK4, P_COEF, P_JUMP, P_KIN, P_KIN_COEF, P_2D, P_NTRAJ };
    struct ProgInfo {
        const char* file; // default output without extension
        int (*main)(int, char**);
        bool three, coefficients, jump, has_U, has_filling;
    };
    static const ProgInfo prog_info[] = {
        {"hubbard_real_1d_rk4", prog_real_1d_rk4, true, false, false, true, true},
        {"hubbard_real_1d_rk4_coefficients", prog_real_1d_rk4_coefficients, true, true, false, true, false},
        {"hubbard_real_1d_rk4_jump", prog_real_1d_rk4_jump, true, false, true, true, true},
        {"hubbard_real_1d_kinetic_rk4", prog_real_1d_kinetic_rk4, false, false, false, false, true},
        {"hubbard_real_1d_rk4_coefficients", prog_real_1d_kinetic_rk4_coefficients, false, true, false, false, false},
        {"hubbard_real_2d_rk4", prog_real_2d_rk4_jump, true, false, true, true, false},
    };

    struct Case {
        int prog;
        uint64_t N = 1, Nx = 1, Ny = 1, mi = 1;
        double J = 1, U = 1, dt = 0.125, t_end = 1, filling = 0.5, kx = PI / 2, ky = PI / 2;
        std::vector<std::pair<std::string, std::string>> given; // options given on the command line
        int threads = 1;
        const ProgInfo& info() const { return prog_info[prog]; }
        uint64_t sites() const { return prog == P_2D ? Nx * Ny : N; }
        uint64_t dim() const
        {
            const auto n = sites();
            return info().three ? n + n * n * n : n;
        }
    };

    inline double pick(const char* const* texts, int n, std::string* text)
    {
        *text = texts[sim::draw(0, n - 1)];
        return std::strtod(text->c_str(), nullptr);
    }
    // draws parameters; about max_steps integration steps at most
    inline Case draw_case(int max_steps, int max_dim = 300, int prog = -1, bool lasting = false)
    {
        static const char* const Js[]  = {"1", "0.5", "-1.3", "2", "0", "0.01", "0.987654321012", "1e-2", "-1.00000000321"};
        static const char* const Us[]  = {"1", "4", "0", "-2", "0.25", "10", "3.00000000123", "5e-1", "+2.5"};
        static const char* const dts[] = {"0.125", "0.0625", "0.1", "0.01", "0.05", "0.25", "0.0512345678901", "5e-2"};
        static const char* const fs[]  = {"0.5", "0.25", "0.75", "1", "0.1", "0.300000000007"};
        static const char* const ks[]  = {"1.5", "0", "3.25", "-0.7", "1.5707963267948966", "2.345678901234"};
        Case c;
        c.prog = prog >= 0 ? prog : int(sim::draw(0, P_NTRAJ - 1));
        std::string v;
        auto give = [&](const char* k, const std::string& t) { c.given.emplace_back(k, t); };
        if(c.prog == P_2D) {
            c.Nx = uint64_t(sim::draw(1, max_dim > 300 ? 8 : 3));
            c.Ny = uint64_t(sim::draw(1, max_dim > 300 ? 8 : 3));
            while(c.dim() > uint64_t(max_dim)) --(c.Nx > c.Ny ? c.Nx : c.Ny);
            give("Nx", std::to_string(c.Nx));
            give("Ny", std::to_string(c.Ny));
        } else {
            c.N = uint64_t(sim::draw(1, c.info().three ? (max_dim > 300 ? 8 : 5) : max_dim > 300 ? 200 : 16));
            while(c.dim() > uint64_t(max_dim)) --c.N;
            give("N", std::to_string(c.N));
        }
        static const char* const fine[] = {"0.01", "0.05", "0.0625", "0.1", "0.02", "0.03"}; // stable for all couplings below
        c.dt = pick(lasting ? fine : dts, lasting ? 6 : 8, &v);
        give("dt", v);
        const bool binary = c.dt == 0.125 || c.dt == 0.0625 || c.dt == 0.25;
        const int steps   = int(sim::draw(0, max_steps));
        // a stop time that is a multiple of the step only where the sum of steps is exact
        const double frac = binary && sim::chance(50) ? 0. : 0.5;
        c.t_end           = (steps + frac) * c.dt;
        if(steps == 0 && sim::chance(50)) c.t_end = 0.;
        char b[40];
        snprintf(b, sizeof b, "%.14g", c.t_end);
        give("t_end", b);
        c.t_end = std::strtod(b, nullptr);
        c.mi    = uint64_t(sim::draw(1, lasting && sim::chance(70) ? 60 : std::max(2, max_steps / 2 + 1)));
        if(sim::chance(lasting ? 5 : 30)) c.mi = 1;
        give("measurement_interval", std::to_string(c.mi));
        if(sim::chance(60)) {
            c.J = pick(Js, lasting ? 3 : 9, &v);
            give("J", v);
        }
        if(c.info().has_U && sim::chance(60)) {
            c.U = pick(Us, lasting ? 5 : 9, &v);
            give("U", v);
        }
        if(c.info().has_filling && sim::chance(50)) {
            c.filling = pick(fs, 6, &v);
            give("filling_factor", v);
        }
        if(c.prog == P_2D && sim::chance(50)) {
            c.kx = pick(ks, 6, &v);
            give("kx", v);
        }
        if(c.prog == P_2D && sim::chance(50)) {
            c.ky = pick(ks, 6, &v);
            give("ky", v);
        }
        return c;
    }

    // ------------------------------------------------------------- reference
    struct Row {
        std::vector<double> v;     // time, values
        std::vector<double> scale; // of each value
    };
    inline std::vector<uint64_t> neighbours(const Case& c, uint64_t s)
    {
        if(c.prog != P_2D) return {(s + c.N - 1) % c.N, (s + 1) % c.N};
        const uint64_t x = s / c.Ny, y = s % c.Ny;
        return {(x + c.Nx - 1) % c.Nx * c.Ny + y, (x + 1) % c.Nx * c.Ny + y, x * c.Ny + (y + c.Ny - 1) % c.Ny,
                x * c.Ny + (y + 1) % c.Ny};
    }
    inline std::vector<Complex> derivative(const Case& c, const std::vector<Complex>& v)
    {
        const uint64_t n = c.sites();
        std::vector<Complex> r(v.size());
        const Complex I(0., 1.);
        auto at = [n](uint64_t i, uint64_t j, uint64_t k) { return n + (i * n + j) * n + k; };
        for(uint64_t i = 0; i < n; ++i) {
            Complex s = 0.;
            for(auto m : neighbours(c, i)) s -= c.J * v[m];
            if(c.info().three) s += c.U / 2. * (v[i] + v[at(i, i, i)]);
            r[i] = I * s;
        }
        if(c.info().three)
            for(uint64_t i = 0; i < n; ++i)
                for(uint64_t j = 0; j < n; ++j)
                    for(uint64_t k = 0; k < n; ++k) {
                        Complex s = c.U / 2. * v[at(i, j, k)];
                        for(auto m : neighbours(c, i)) s -= c.J * v[at(m, j, k)];
                        for(auto m : neighbours(c, j)) s -= c.J * v[at(i, m, k)];
                        for(auto m : neighbours(c, k)) s += c.J * v[at(i, j, m)];
                        if(i == j && j == k) s += c.U / 2. * v[i];
                        r[at(i, j, k)] = I * s;
                    }
        return r;
    }
    inline void ref_step(const Case& c, std::vector<Complex>& u)
    {
        auto plus = [&](const std::vector<Complex>& k, double f) {
            auto x = u;
            for(size_t i = 0; i < x.size(); ++i) x[i] += f * k[i];
            return x;
        };
        const auto k1 = derivative(c, u), k2 = derivative(c, plus(k1, c.dt / 2)), k3 = derivative(c, plus(k2, c.dt / 2)),
                   k4 = derivative(c, plus(k3, c.dt));
        for(size_t i = 0; i < u.size(); ++i) u[i] += c.dt / 6. * (k1[i] + 2. * k2[i] + 2. * k3[i] + k4[i]);
    }
    inline Row measure(const Case& c, double t, const std::vector<Complex>& u)
    {
        Row r;
        const uint64_t n = c.sites();
        r.v.push_back(t);
        r.scale.push_back(1e-6 * (1. + std::fabs(t)));
        if(c.info().coefficients) {
            double s = 0.;
            for(auto& x : u) s += std::abs(x);
            for(auto& x : u) {
                r.v.push_back(x.real());
                r.v.push_back(x.imag());
                r.scale.push_back(s);
                r.scale.push_back(s);
            }
            return r;
        }
        Table g{n, std::vector<double>(n * n)};
        for(uint64_t a = 0; a < n; ++a)
            for(uint64_t b = 0; b < n; ++b)
                g.g[a * n + b] = c.prog == P_2D ? ev2d(dist(a / c.Ny, b / c.Ny, c.Nx), dist(a % c.Ny, b % c.Ny, c.Ny))
                                                : ev1d(dist(a, b, n), c.filling, c.filling * PI, 1.);
        double scale = 0.;
        if(!c.info().jump) {
            const double v = occupation(g, n, c.info().three, u, &scale);
            r.v.push_back(v);
            r.scale.push_back(scale);
            return r;
        }
        Complex sum = 0.;
        for(uint64_t i = 0; i < n; ++i) {
            Complex x = u[i];
            double s  = std::abs(u[i]);
            for(uint64_t j = 0; j < n; ++j)
                for(uint64_t k = 0; k < n; ++k) {
                    const double f = 2. * g(j, k) - (j == k ? 1. : 0.);
                    x += f * u[n + (i * n + j) * n + k];
                    s += std::fabs(f) * std::abs(u[n + (i * n + j) * n + k]);
                }
            const double ph = c.prog == P_2D ? c.kx * double(i / c.Ny) + c.ky * double(i % c.Ny) : c.filling * PI * double(i);
            sum += x * Complex(std::cos(ph), std::sin(ph));
            scale += s;
        }
        r.v.push_back(std::norm(sum));
        r.scale.push_back(scale * scale);
        return r;
    }
    // steps done at each measurement of an undisturbed run
    inline void reference_steps(const Case& c, std::vector<uint64_t>* step_of)
    {
        step_of->assign(1, 0);
        double t      = 0.;
        uint64_t step = 0, last = 0;
        for(;;) {
            if(step > last && step - last >= c.mi) step_of->push_back(last = step);
            if(!(t < c.t_end)) break;
            t += c.dt;
            ++step;
        }
    }
    // rows of an undisturbed run
    inline std::vector<Row> reference_rows(const Case& c)
    {
        sim::Quiet q;
        std::vector<uint64_t> at;
        reference_steps(c, &at);
        std::vector<Complex> u(c.dim());
        u[0] = 1.;
        std::vector<Row> rows;
        double t = 0.;
        for(uint64_t step = 0, k = 0; k < at.size(); ++step) {
            if(at[k] == step) {
                rows.push_back(measure(c, t, u));
                if(++k == at.size()) break;
            }
            ref_step(c, u);
            t += c.dt;
        }
        return rows;
    }

    // ------------------------------------------------------------- processes
    inline sim::ProcResult run_program(const std::function<int(int, char**)>& fn, const std::string& name, const std::vector<std::string>& args,
                                       const sim::ProcSpec& spec)
    {
        std::vector<std::string> all{name};
        all.insert(all.end(), args.begin(), args.end());
        return sim::run_process(spec, [&] {
            std::vector<char*> argv;
            for(auto& a : all) argv.push_back(const_cast<char*>(a.c_str()));
            argv.push_back(nullptr);
            return fn(int(all.size()), argv.data());
        });
    }
    inline std::vector<std::string> command_line(const Case& c)
    {
        std::vector<std::string> a;
        for(auto& g : c.given) a.push_back("--" + g.first + "=" + g.second);
        return a;
    }
    inline std::string join(const std::vector<std::string>& v)
    {
        std::string s;
        for(auto& x : v) s += (s.empty() ? "" : " ") + x;
        return s;
    }
    inline std::string describe(const sim::ProcResult& r)
    {
        char b[200];
        snprintf(b, sizeof b, "crashed=%d exited=%d status=%d signal=%d hung=%d", r.crashed_by_sim, r.exited, r.exit_status,
                 r.signal, r.hung);
        return std::string(b) + (r.err.empty() ? "" : " stderr: ..." + r.err.substr(r.err.size() > 300 ? r.err.size() - 300 : 0));
    }

    // what a run finds under the name of its output: usually nothing, sometimes what another run left there
    inline std::string leave_old(const std::string& file)
    {
        sim::Quiet q;
        ::unlink(file.c_str());
        if(!sim::chance(25)) return "";
        std::string t;
        const int64_t lines = sim::draw(1, sim::chance(20) ? 2000 : 40);
        for(int64_t i = 0; i < lines; ++i) t += i < 3 ? "# an older run\n" : "999\t-999\t999\n";
        if(sim::chance(30)) t += "99";
        sim::spew(file, t);
        sim::probe("output of an older run found");
        return t;
    }

    // ----------------------------------------------------------- output file
    struct Output {
        std::vector<std::string> header, rows; // lines without their newline
        bool complete_end = true;              // last line ends with a newline
    };
    inline Output split_output(const std::string& text)
    {
        Output o;
        size_t p = 0;
        while(p < text.size()) {
            size_t e = text.find('\n', p);
            if(e == std::string::npos) {
                o.complete_end = false;
                e              = text.size();
            }
            const std::string line = text.substr(p, e - p);
            p                      = e + 1;
            if(o.rows.empty() && !line.empty() && line[0] == '#')
                o.header.push_back(line);
            else
                o.rows.push_back(line);
        }
        return o;
    }
    // "" or what is wrong
    inline std::string compare_row(const std::string& line, const Row& want)
    {
        const char* p = line.c_str();
        char b[200];
        for(size_t i = 0; i < want.v.size(); ++i) {
            if(i && *p++ != '\t') return "too few columns in \"" + line.substr(0, 80) + "\"";
            char* e;
            if(*p == ' ' || *p == '\t') return "empty column in \"" + line.substr(0, 80) + "\"";
            const double d = std::strtod(p, &e);
            if(e == p) return "not a number in \"" + line.substr(0, 80) + "\"";
            p = e;
            // six significant digits are printed
            const double tol = 1.01e-5 * std::fabs(want.v[i]) + 1e-9 * want.scale[i] + 1e-300;
            if(!(std::fabs(d - want.v[i]) <= tol)) {
                snprintf(b, sizeof b, "column %zu is %.9g instead of %.9g", i, d, want.v[i]);
                return b;
            }
        }
        if(*p) return "too many columns in \"" + line.substr(0, 80) + "\"";
        return "";
    }
    inline void check_rows(const char* cls, const std::string& what, const std::string& text, const std::vector<Row>& want,
                           const std::string& extra)
    {
        sim::Quiet q;
        const auto o = split_output(text);
        if(o.header.empty()) sim::fail(cls, "%s: no header [%s]", what.c_str(), extra.c_str());
        if(!o.complete_end) sim::fail(cls, "%s: last line has no end [%s]", what.c_str(), extra.c_str());
        if(o.rows.size() != want.size())
            sim::fail(cls, "%s: %zu rows instead of %zu [%s]", what.c_str(), o.rows.size(), want.size(), extra.c_str());
        for(size_t i = 0; i < want.size(); ++i) {
            const auto e = compare_row(o.rows[i], want[i]);
            if(!e.empty()) sim::fail(cls, "%s: row %zu: %s [%s]", what.c_str(), i, e.c_str(), extra.c_str());
        }
        sim::digest(text.data(), text.size());
    }
    // the header of an undisturbed run, every line with its end
    inline std::string header_text(const std::string& text)
    {
        size_t p = 0;
        while(p < text.size() && text[p] == '#') {
            const size_t e = text.find('\n', p);
            if(e == std::string::npos) return text;
            p = e + 1;
        }
        return text.substr(0, p);
    }
    // text must be a prefix of what an undisturbed run writes; returns the number of complete rows
    inline size_t check_prefix(const char* cls, const std::string& what, const std::string& text, const std::string& header,
                               const std::vector<Row>& want)
    {
        sim::Quiet q;
        if(text.size() <= header.size()) {
            if(header.compare(0, text.size(), text) != 0)
                sim::fail(cls, "%s: the file is not the beginning of the header", what.c_str());
            return 0;
        }
        if(text.compare(0, header.size(), header) != 0) sim::fail(cls, "%s: header damaged", what.c_str());
        size_t p = header.size(), n = 0;
        while(p < text.size()) {
            const size_t e = text.find('\n', p);
            if(n >= want.size()) sim::fail(cls, "%s: more than %zu rows", what.c_str(), want.size());
            if(e == std::string::npos) { // cut off: all complete columns must be right
                Row part;
                size_t b = p, col = 0;
                for(size_t t; (t = text.find('\t', b)) != std::string::npos; b = t + 1, ++col) {
                    if(col >= want[n].v.size()) break;
                    part.v.push_back(want[n].v[col]);
                    part.scale.push_back(want[n].scale[col]);
                }
                if(col >= want[n].v.size()) sim::fail(cls, "%s: too many columns in the last row", what.c_str());
                if(col) {
                    const auto m = compare_row(text.substr(p, b - 1 - p), part);
                    if(!m.empty()) sim::fail(cls, "%s: cut-off row %zu: %s", what.c_str(), n, m.c_str());
                }
                if(text.find_first_not_of("+-.0123456789einaf", b) != std::string::npos)
                    sim::fail(cls, "%s: row %zu is cut off in an odd way: \"%s\"", what.c_str(), n, text.substr(p, 80).c_str());
                break;
            }
            const auto m = compare_row(text.substr(p, e - p), want[n]);
            if(!m.empty()) sim::fail(cls, "%s: row %zu: %s", what.c_str(), n, m.c_str());
            ++n;
            p = e + 1;
        }
        return n;
    }
    inline const char* op_name(int op)
    {
        static const char* const n[] = {"open", "write", "read", "close", "rename", "logwrite"};
        return n[op];
    }
    inline std::string describe(const sim::IoFault& f)
    {
        static const char* const a[] = {"none", "error", "errors from", "short", "EINTR", "crash", "torn"};
        char b[80];
        snprintf(b, sizeof b, " %s@%s#%llu(%lld)", a[f.act], op_name(f.op), (unsigned long long)f.at, (long long)f.arg);
        return b;
    }
    // a fault that a correct program absorbs
    inline void draw_benign(std::vector<sim::IoFault>& plan, const uint64_t* ops, int max, bool logs = true)
    {
        const int n = int(sim::draw(0, max));
        for(int i = 0; i < n; ++i) {
            static const int cls[] = {sim::IO_WRITE, sim::IO_READ, sim::IO_LOG};
            const int op           = cls[sim::draw(0, logs ? 2 : 1)];
            if(!ops[op]) continue;
            const auto at = uint64_t(sim::draw(1, int64_t(ops[op])));
            if(sim::chance(40))
                plan.push_back({op, at, sim::A_EINTR, 0});
            else
                plan.push_back({op, at, sim::A_SHORT, sim::draw(1, 999)});
        }
    }
    // faults for a process whose undisturbed run made ops operations; returns a description
    inline std::string draw_plan(std::vector<sim::IoFault>& plan, const uint64_t* ops, bool hard)
    {
        draw_benign(plan, ops, hard ? 2 : 4);
        std::string d;
        const int n = hard ? int(sim::draw(1, 2)) : 0;
        for(int i = 0; i < n; ++i) {
            static const int cls[] = {sim::IO_WRITE, sim::IO_WRITE, sim::IO_WRITE, sim::IO_CLOSE, sim::IO_OPEN, sim::IO_LOG,
                                      sim::IO_READ, sim::IO_RENAME};
            const int op = cls[sim::draw(0, 7)];
            if(!ops[op]) continue;
            const auto at      = sim::chance(25) ? ops[op] : uint64_t(sim::draw(1, int64_t(ops[op])));
            const bool forever = sim::chance(50);
            const int e        = op == sim::IO_WRITE || op == sim::IO_LOG || op == sim::IO_CLOSE ? (sim::chance(60) ? ENOSPC : EIO)
                                 : op == sim::IO_OPEN                     ? (sim::chance(30) ? EMFILE : EACCES)
                                                                          : EIO;
            plan.push_back({op, at, forever ? sim::A_ERR_FOREVER : sim::A_ERR, e});
        }
        for(auto& f : plan) d += describe(f);
        return d;
    }
    // memory runs out in a process whose undisturbed run made so many allocations
    inline std::string draw_out_of_memory(sim::ProcSpec& s, uint64_t allocs)
    {
        if(!allocs) return "";
        s.alloc_fail_at    = sim::chance(50) ? allocs - uint64_t(sim::draw(0, int64_t(std::min<uint64_t>(allocs, 300)) - 1))
                                             : uint64_t(sim::draw(1, int64_t(allocs)));
        s.alloc_fail_count = sim::chance(60) ? 1 : sim::chance(50) ? uint64_t(sim::draw(2, 5)) : ~uint64_t(0) >> 1;
        char b[100];
        snprintf(b, sizeof b, " out of memory at allocation %llu of %llu%s", (unsigned long long)s.alloc_fail_at, (unsigned long long)allocs,
                 s.alloc_fail_count == 1 ? "" : s.alloc_fail_count > 5 ? " and all later ones" : " and some later ones");
        return b;
    }
    inline void check_ending(const std::string& what, const sim::ProcResult& r, bool may_fail)
    {
        if(r.hung) sim::fail("hang", "%s", what.c_str());
        if(r.exited && r.exit_status == 0) return;
        if(!may_fail) sim::fail("absorb", "%s: should have been absorbed: %s", what.c_str(), describe(r).c_str());
        if(!r.exited && r.signal != SIGABRT) sim::fail("signal", "%s: %s", what.c_str(), describe(r).c_str());
    }
} // namespace h
#endif
