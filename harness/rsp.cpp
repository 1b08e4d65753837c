// C14: response files
#include "prog.hpp"
#include <sys/stat.h>

using namespace h;

const sim::CheckInfo sim::info = {
    "C14", "response",
    "one run: a time-evolution program with drawn options leaves its response file; the program is then started with that "
    "file complete, or cut off (by a crash at a drawn file operation while it was written, or at a drawn byte), missing, "
    "empty, a directory, or read with short, interrupted or failing reads, some options repeated or overridden on the command line",
    "programs real_1d_rk4, _coefficients, _jump, real_1d_kinetic_rk4, _coefficients, real_2d_rk4_jump with everything they use",
    "OpenMP runtime, heap, files (simulated); Blaze types and spdlog (stand-ins)"};

void sim::zygote() {}

namespace
{
    using Strings = std::vector<std::string>;
    Strings lines_of(const std::string& t)
    {
        Strings r;
        for(size_t p = 0; p < t.size();) {
            size_t e = t.find('\n', p);
            if(e == std::string::npos) e = t.size();
            r.push_back(t.substr(p, e - p));
            p = e + 1;
        }
        return r;
    }
    std::string key_of(const std::string& line) // "" unless it is a complete --key=
    {
        const auto e = line.find('=');
        return line.compare(0, 2, "--") == 0 && e != std::string::npos ? line.substr(2, e - 2) : "";
    }
    std::string value_of(const std::string& line) { return line.substr(line.find('=') + 1); }

    // every parameter of the run must be in the response file
    void check_contents(const std::string& what, const Case& c, const std::string& text, const std::string& out)
    {
        sim::Quiet q;
        std::vector<std::pair<std::string, double>> want{{"J", c.J}, {"dt", c.dt}, {"t_end", c.t_end}, {"measurement_interval", double(c.mi)}};
        if(c.prog == P_2D) {
            want.emplace_back("Nx", double(c.Nx));
            want.emplace_back("Ny", double(c.Ny));
            want.emplace_back("kx", c.kx);
            want.emplace_back("ky", c.ky);
        } else
            want.emplace_back("N", double(c.N));
        if(c.info().has_U) want.emplace_back("U", c.U);
        if(c.info().has_filling) want.emplace_back("filling_factor", c.filling);
        int outs = 0;
        for(auto& l : lines_of(text))
            if(key_of(l) == "out") {
                ++outs;
                if(value_of(l) != out) sim::fail("contents", "%s: response file says %s, the run wrote %s", what.c_str(), l.c_str(), out.c_str());
            }
        if(outs == 0) sim::fail("contents", "%s: out is missing from the response file", what.c_str());
        for(auto& w : want) {
            int n            = 0;
            bool given       = false;
            for(auto& g : c.given) given = given || g.first == w.first;
            const double tol = given ? 0. : 1e-9 * std::fabs(w.second);
            for(auto& l : lines_of(text))
                if(key_of(l) == w.first) {
                    ++n;
                    char* e;
                    const auto v   = value_of(l);
                    const double x = std::strtod(v.c_str(), &e);
                    if(v.empty() || *e || !(std::fabs(x - w.second) <= tol))
                        sim::fail("contents", "%s: response file says %s, the run used %.17g", what.c_str(), l.c_str(), w.second);
                }
            if(n == 0) sim::fail("contents", "%s: %s is missing from the response file", what.c_str(), w.first.c_str());
        }
    }
    enum Outcome { OK, ERROR };
    Outcome outcome(const std::string& what, const sim::ProcResult& r)
    {
        if(r.hung) sim::fail("hang", "%s", what.c_str());
        if(r.exited) return r.exit_status == 0 ? OK : ERROR;
        if(r.signal != SIGABRT || r.err.find("terminate called") == std::string::npos)
            sim::fail("crash", "%s: %s", what.c_str(), describe(r).c_str());
        return ERROR;
    }
    // like check_rows, but against another run's file
    void same_rows(const std::string& what, const std::string& got, const std::string& want)
    {
        sim::Quiet q;
        const auto a = split_output(got), b = split_output(want);
        if(a.rows.size() != b.rows.size())
            sim::fail("rows", "%s: %zu rows instead of %zu", what.c_str(), a.rows.size(), b.rows.size());
        double scale = 0;
        std::vector<Row> rows;
        for(auto& l : b.rows) {
            Row r;
            for(const char* p = l.c_str(); *p;) {
                char* e;
                r.v.push_back(std::strtod(p, &e));
                if(e == p) sim::fail("rows", "%s: odd row \"%s\"", what.c_str(), l.substr(0, 80).c_str());
                p = *e ? e + 1 : e;
                if(r.v.size() > 1) scale = std::max(scale, std::fabs(r.v.back()));
            }
            rows.push_back(r);
        }
        for(size_t i = 0; i < rows.size(); ++i) {
            rows[i].scale.assign(rows[i].v.size(), 10. * scale);
            const auto e = compare_row(a.rows[i], rows[i]);
            if(!e.empty()) sim::fail("rows", "%s: row %zu: %s", what.c_str(), i, e.c_str());
        }
    }
    // c with the value that other has for one option
    void override_one(Case& c, const Case& other, const std::string& k)
    {
        if(k == "N") c.N = other.N;
        else if(k == "Nx") c.Nx = other.Nx;
        else if(k == "Ny") c.Ny = other.Ny;
        else if(k == "dt") c.dt = other.dt;
        else if(k == "t_end") c.t_end = other.t_end;
        else if(k == "measurement_interval") c.mi = other.mi;
        else if(k == "J") c.J = other.J;
        else if(k == "U") c.U = other.U;
        else if(k == "filling_factor") c.filling = other.filling;
        else if(k == "kx") c.kx = other.kx;
        else if(k == "ky") c.ky = other.ky;
    }
    bool heavy(const std::string& k) { return k == "N" || k == "Nx" || k == "Ny" || k == "t_end" || k == "dt"; }
} // namespace

void sim::scenario()
{
    auto c         = draw_case(sim::thorough() ? 12 : 6, sim::thorough() ? 160 : 80);
    // order of the options on the command line
    for(size_t i = c.given.size(); i > 1; --i) std::swap(c.given[i - 1], c.given[size_t(sim::draw(0, int64_t(i) - 1))]);
    auto args      = command_line(c);
    const auto exe = std::string(c.info().file);
    std::string base = exe;
    if(sim::chance(40)) {
        static const char* const bases[] = {"first run", "a.b", "d.1/x", "d.1/x.y"};
        base = bases[sim::draw(0, 3)];
        ::mkdir("d.1", 0700);
        args.insert(args.begin() + sim::draw(0, int64_t(args.size())), "--out=" + base + ".dat");
    }
    const auto out1      = base == exe ? exe + ".txt" : base + ".dat";
    const auto what_base = exe + " " + join(args);
    auto run             = [&](const Strings& a, const sim::ProcSpec& s) { return run_program(c.info().main, exe, a, s); };
    sim::ProcSpec spec;
    spec.max_threads = draw_threads();
    // files of the same names that earlier runs with other options left there
    for(int k = sim::chance(40) ? int(sim::draw(1, 2)) : 0; k > 0; --k) {
        auto other = draw_case(4, 30, c.prog);
        auto a     = command_line(other);
        if(base != exe) a.push_back("--out=" + out1);
        sim::ProcSpec s = spec;
        if(sim::chance(50)) {
            static const int cls[] = {sim::IO_WRITE, sim::IO_OPEN, sim::IO_CLOSE};
            s.io.push_back({cls[sim::draw(0, 2)], uint64_t(sim::draw(1, 4)), sim::A_CRASH, 0});
        }
        sim::note("earlier run: %s", join(a).c_str());
        if(run(a, s).hung) sim::fail("hang", "%s", join(a).c_str());
        sim::probe("earlier run with the same file names");
    }
    if(outcome(what_base, run(args, spec)) != OK) sim::fail("exit", "%s", what_base.c_str());
    bool there;
    const auto rsp = sim::slurp(base + ".rsp", &there);
    if(!there) sim::fail("contents", "%s: no response file", what_base.c_str());
    check_contents(what_base, c, rsp, out1);
    const auto rows = reference_rows(c);
    check_rows("rows", what_base, sim::slurp(out1), rows, "first run");

    // what the second start finds
    std::string file = "second.rsp", text = rsp, state = "complete";
    const int kind = int(sim::draw(0, 9));
    sim::ProcSpec two;
    two.max_threads = draw_threads();
    bool must_fail = false;
    if(kind <= 2) { // complete, perhaps with awkward reads
        if(sim::chance(50)) file = base + ".rsp"; // where the first run left it
        if(sim::chance(50)) {
            const uint64_t ops[sim::IO_NOPS] = {3, 4, 1 + rsp.size() / 100, 3, 0, 50};
            draw_benign(two.io, ops, 3);
        }
    } else if(kind <= 6) { // cut off
        size_t len = 0;
        if(sim::chance(40)) { // by a crash while it was written
            if(sim::chance(50)) ::unlink((base + ".rsp").c_str());
            sim::ProcSpec s  = spec;
            static const int cls[] = {sim::IO_WRITE, sim::IO_OPEN, sim::IO_CLOSE};
            const int op     = cls[sim::draw(0, 2)];
            s.io.push_back({op, uint64_t(sim::draw(1, 3)), op == sim::IO_WRITE ? sim::A_TORN : sim::A_CRASH, sim::draw(0, 1000)});
            const auto r = run(args, s);
            if(r.hung) sim::fail("hang", "%s", what_base.c_str());
            const auto left = sim::slurp(base + ".rsp", &there);
            if(rsp.compare(0, left.size(), left) != 0)
                sim::fail("contents", "%s: response file of a crashed run is not a beginning of the complete one", what_base.c_str());
            len = left.size();
        } else
            len = size_t(sim::draw(0, int64_t(rsp.size())));
        text  = rsp.substr(0, len);
        state = "cut off after " + std::to_string(len) + " of " + std::to_string(rsp.size()) + " bytes";
    } else if(kind == 7) {
        state     = "missing";
        file      = sim::chance(50) ? "nowhere.rsp" : "no/such/directory.rsp";
        must_fail = true;
    } else if(kind == 8) {
        state     = "a directory";
        must_fail = true;
    } else { // its reading fails at some point
        state = "failing reads";
        if(sim::chance(40)) {
            state             = "little memory";
            two.alloc_fail_at = uint64_t(sim::draw(1, sim::chance(70) ? 1200 : 4000));
            if(sim::chance(30)) two.alloc_fail_count = ~uint64_t(0) >> 1;
        } else
            two.io.push_back({sim::IO_READ, uint64_t(sim::draw(1, 2)), sim::chance(50) ? sim::A_ERR : sim::A_ERR_FOREVER, EIO});
    }
    // options given in the second command line: those that would make a run with defaults endless, and some more
    Strings left = lines_of(text), cli, cli_keys;
    auto on_cli  = [&](const std::string& k) { return std::find(cli_keys.begin(), cli_keys.end(), k) != cli_keys.end(); };
    const bool use_file = !must_fail;
    Case second         = c; // the parameters of the second run, if the file is complete
    if(sim::chance(50)) {    // other values on the command line take precedence
        const Case other = draw_case(6, 80, c.prog);
        const bool dims = sim::chance(40), time = sim::chance(40);
        for(auto& g : other.given) {
            const auto& k = g.first;
            const bool on = k == "N" || k == "Nx" || k == "Ny" ? dims : k == "dt" || k == "t_end" ? time : sim::chance(50);
            if(!on) continue;
            override_one(second, other, k);
            cli.push_back("--" + k + "=" + g.second);
            cli_keys.push_back(k);
            sim::probe("overridden");
        }
    }
    for(auto& g : c.given) {
        if(on_cli(g.first)) continue;
        bool found = false;
        for(auto& l : left)
            if(key_of(l) == g.first) {
                found = true;
                if(g.first == "dt" && std::strtod(value_of(l).c_str(), nullptr) <= 0.) found = false; // never ends
                if(g.first == "measurement_interval" && std::strtod(value_of(l).c_str(), nullptr) <= 0.) found = false;
            }
        if(sim::chance(10) || (heavy(g.first) && !found)) {
            cli.push_back("--" + g.first + "=" + g.second);
            cli_keys.push_back(g.first);
        }
    }
    const bool named_out = sim::chance(70);
    const auto out2      = named_out ? std::string("second.txt") : exe + ".txt";
    const auto what      = what_base + " --> response file " + state + ", " + join(cli);
    sim::note("%s", what.c_str());
    if(kind == 8)
        ::mkdir(file.c_str(), 0700);
    else if(use_file)
        sim::spew(file, text);
    ::unlink(out2.c_str());
    Strings a2 = cli;
    a2.insert(a2.begin() + sim::draw(0, int64_t(a2.size())), "--response_file=" + file);
    if(named_out) a2.push_back("--out=" + out2);
    const auto r2 = run(a2, two);
    const auto o2 = outcome(what, r2);
    for(auto& f : {sim::F_READ_SHORT, sim::F_READ_ERR})
        if(r2.fired[f]) sim::probe(f == sim::F_READ_ERR ? "failing read" : "short read");
    if(must_fail) {
        if(o2 == OK) sim::fail("unreported", "%s: exit status 0", what.c_str());
        return;
    }
    const auto got2 = sim::slurp(out2);
    if(kind <= 2 || (kind == 9 && o2 == OK)) {
        if(o2 != OK) sim::fail("exit", "%s: %s", what.c_str(), describe(r2).c_str());
        if(kind == 9 && r2.fired[sim::F_READ_ERR] == 0) sim::probe("read fault not reached");
        const auto rows2 = reference_rows(second);
        check_rows("rows", what, got2, rows2, "second run");
        if(kind <= 2 && sim::chance(40)) { // and once more
            sim::probe("response file used again");
            leave_old(out2);
            const auto r3 = run(a2, spec);
            if(outcome(what + " (again)", r3) != OK) sim::fail("exit", "%s (again): %s", what.c_str(), describe(r3).c_str());
            check_rows("rows", what + " (again)", sim::slurp(out2), rows2, "third run");
        }
        return;
    }
    if(kind == 9) return;
    // cut off: the program must do what it does with the surviving options on the command line
    Strings a3 = cli;
    a3.push_back("--out=third.txt");
    for(auto& l : left) {
        const auto k = key_of(l);
        if(k == "out" && l != "--out=") continue;
        if(!k.empty() && on_cli(k) && l != "--" + k + "=") {
            // overridden; its value is still parsed
            continue;
        }
        a3.push_back(l);
    }
    const auto r3 = run(a3, spec);
    const auto o3 = outcome(what + " (as options)", r3);
    if(o2 != o3)
        sim::fail("differs", "%s: %s, but with the same options on the command line: %s", what.c_str(), describe(r2).c_str(),
                  describe(r3).c_str());
    if(o2 == OK) {
        same_rows(what, got2, sim::slurp("third.txt"));
        sim::probe("cut off, normal run");
    } else
        sim::probe("cut off, error");
}
