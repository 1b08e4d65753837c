// C19: several processes at work in one directory at the same time
#include "files.hpp"
#include <algorithm>
#include <dirent.h>
#include <set>
#include <sys/stat.h>
#include <unistd.h>

extern "C" int prog_dispersion_1d();

using namespace h;

const sim::CheckInfo sim::info = {
    "C19", "side_by_side",
    "one run: two to four processes (time-evolution programs under output names of their own, dispersion_1d, writers of "
    "checkpoints under prefixes of their own, trimmers of files of their own) run alone one after the other, and then in the same directory "
    "at the same time, handing over to each other at drawn file operations and matrix products; one of them may be killed, "
    "fail with disk errors, or be killed and started again",
    "programs real_1d_rk4, _coefficients, _jump, real_1d_kinetic_rk4, _coefficients, real_2d_rk4_jump, dispersion_1d with everything they use, "
    "write_checkpoint_file, clean_output_file",
    "OpenMP runtime, heap, files (simulated); Blaze types and spdlog (stand-ins)"};

void sim::zygote() {}

namespace
{
    using Files = std::map<std::string, std::string>; // path, content
    void list(const std::string& dir, Files& out)
    {
        sim::Quiet q;
        DIR* d = ::opendir(dir.empty() ? "." : dir.c_str());
        if(!d) return;
        std::vector<std::string> subs;
        while(auto* e = ::readdir(d)) {
            const std::string n = e->d_name;
            if(n == "." || n == "..") continue;
            const auto p = dir.empty() ? n : dir + "/" + n;
            struct stat st;
            if(::stat(p.c_str(), &st) != 0) continue;
            if(S_ISDIR(st.st_mode))
                subs.push_back(p);
            else
                out[p] = sim::slurp(p);
        }
        ::closedir(d);
        for(auto& s : subs) list(s, out);
    }
    Files listing()
    {
        Files f;
        list("", f);
        return f;
    }
    void restore(const Files& f)
    {
        sim::Quiet q;
        for(auto& x : listing())
            if(!f.count(x.first)) ::unlink(x.first.c_str());
        for(auto& x : f) sim::spew(x.first, x.second);
    }

    enum Kind { K_PROGRAM, K_DISPERSION, K_CHECKPOINTS, K_TRIM, NKINDS };
    struct Job {
        int kind;
        std::string name;   // what it is, for messages
        std::string input;  // path of the file that a trimmer works on
        std::string output; // path of the measurements of a program
        std::vector<Row> rows;
        std::function<int()> fn;
        sim::ProcSpec spec;
        sim::ProcResult alone;
        Files left; // by the run alone
    };
    bool is_log(const std::string& p) { return p.size() > 4 && p.compare(p.size() - 4, 4, ".log") == 0; }
    template <typename T, bool TF>
    void write_checkpoints(const std::string& prefix, const std::vector<std::vector<Complex>>& vs)
    {
        double t = 0.25;
        for(auto& x : vs) {
            blaze::DynamicVector<T, TF> v(x.size());
            for(size_t k = 0; k < x.size(); ++k) v[k] = T(x[k]);
            write_checkpoint_file(prefix, v, t);
            t *= 1.75;
        }
    }

    Job draw_job(int index, int style, bool* fixed_used)
    {
        // output names that differ, but resemble each other
        static const char* const names[][4] = {{"a.txt", "b.txt", "c.txt", "d.txt"},
                                               {"run.txt", "run.1.txt", "run.1.1.txt", "run.10.txt"},
                                               {"d.1/out.txt", "d.2/out.txt", "out.txt", "d.1/out2.txt"},
                                               {"U=0.5_N=4.txt", "U=0.25_N=4.txt", "U=0.5_N=14.txt", "U=0.5_N=4_.txt"},
                                               {"x.dat", "xx.dat", "x x.dat", "X.dat"},
                                               {"./r.out", "d.1/r.out", "d.1/../s.out", "r_checkpoint_0.out"},
                                               {"hubbard.txt", "response.txt", "log.txt", "out.rsp.txt"}};
        Job j;
        j.kind = int(sim::draw(0, 3));
        if(j.kind == K_DISPERSION && (*fixed_used || sim::chance(60))) j.kind = K_PROGRAM;
        const std::string stem = names[style][index];
        j.spec.max_threads     = draw_threads();
        if(j.kind == K_PROGRAM) {
            const auto c = draw_case(sim::thorough() ? 12 : 7, sim::thorough() ? 120 : 80);
            j.rows       = reference_rows(c);
            auto args    = command_line(c);
            if(!*fixed_used && sim::chance(15)) { // under its default name
                *fixed_used = true;
                j.output    = c.info().file + std::string(".txt");
            } else {
                j.output = stem;
                args.insert(args.begin() + long(sim::draw(0, int64_t(args.size()))), "--out=" + stem);
            }
            j.name    = c.info().file + (" " + join(args));
            auto main = c.info().main;
            args.insert(args.begin(), c.info().file);
            j.fn = [args, main]() mutable {
                std::vector<char*> argv;
                for(auto& a : args) argv.push_back(const_cast<char*>(a.c_str()));
                argv.push_back(nullptr);
                return main(int(args.size()), argv.data());
            };
        } else if(j.kind == K_DISPERSION) {
            *fixed_used = true;
            j.name      = "dispersion_1d";
            j.fn        = [] { return prog_dispersion_1d(); };
        } else if(j.kind == K_CHECKPOINTS) {
            static const char* const prefixes[][4] = {{"a_", "b_", "c_", "d_"},
                                                      {"run_checkpoint_", "run.1_checkpoint_", "run2_checkpoint_", "_checkpoint_"},
                                                      {"d.1/x_", "d.2/x_", "x_", "d.1/"},
                                                      {"u1_", "u10_", "u1_0_", "u_"}};
            const std::string prefix = prefixes[style % 4][index];
            const auto m             = size_t(sim::draw(1, 12));
            std::vector<std::vector<Complex>> vs(m);
            for(auto& v : vs) {
                static const int sizes[] = {0, 1, 3, 10, 100, 700};
                if(const auto n = size_t(sizes[sim::draw(0, 5)])) v = draw_vec(n);
            }
            j.name         = std::to_string(m) + " checkpoints " + prefix;
            const auto log = prefix + ".log";
            const bool row = sim::chance(50);
            j.fn           = [=] {
                get_loggers().init(log);
                if(row)
                    write_checkpoints<Complex, blaze::rowVector>(prefix, vs);
                else
                    write_checkpoints<Complex, blaze::columnVector>(prefix, vs);
                return 0;
            };
        } else {
            const int lines   = int(sim::draw(0, 40));
            const auto path   = stem;
            const auto before = std::string("# ") + stem + "\n";
            std::string t     = before;
            sim::Rng r(uint64_t(sim::draw(0, 1 << 20)));
            for(int i = 0; i < lines; ++i) {
                t += std::to_string(i) + '\t' + std::to_string(r.next());
                if(r.coin(.03)) t.append(r.below(9000), '7');
                t += '\n';
            }
            sim::spew(path, t);
            j.input = path;
            const auto keep = uint64_t(sim::draw(0, lines + 1));
            j.name          = "trim " + path + " to " + std::to_string(keep);
            const auto log  = stem.substr(0, stem.rfind('.')) + ".log";
            j.fn            = [=] {
                get_loggers().init(log);
                clean_output_file(path, keep);
                return 0;
            };
        }
        return j;
    }
    bool same_file(const std::string& a, const std::string& b)
    {
        struct stat x, y;
        return ::stat(a.c_str(), &x) == 0 && ::stat(b.c_str(), &y) == 0 && x.st_ino == y.st_ino;
    }
    // a run that nothing happened to must leave what it leaves alone
    void check_job(const std::string& what, const Job& j, const sim::ProcResult& r, const Files& now)
    {
        if(!r.exited || r.exit_status != 0) sim::fail("ending", "%s: %s: %s", what.c_str(), j.name.c_str(), describe(r).c_str());
        for(auto& f : j.left) {
            const auto it = now.find(f.first);
            if(it == now.end()) sim::fail("missing", "%s: %s: no file %s", what.c_str(), j.name.c_str(), f.first.c_str());
            if(!j.output.empty() && same_file(f.first, j.output)) {
                if(header_text(it->second) != header_text(f.second)) sim::fail("header", "%s: %s: other header", what.c_str(), j.name.c_str());
                check_rows("rows", what, it->second, j.rows, j.name);
            } else if(is_log(f.first)) {
                if(it->second.empty()) sim::fail("log", "%s: %s: empty log", what.c_str(), j.name.c_str());
            } else if(it->second != f.second)
                sim::fail("content", "%s: %s: %s holds %zu bytes that differ from the %zu of the run alone", what.c_str(), j.name.c_str(), f.first.c_str(),
                          it->second.size(), f.second.size());
        }
    }
} // namespace

void sim::scenario()
{
    ::mkdir("d.1", 0700);
    ::mkdir("d.2", 0700);
    const int n     = int(sim::draw(2, sim::chance(70) ? 3 : 4));
    const int style = int(sim::draw(0, 6));
    bool fixed      = false;
    std::vector<Job> jobs;
    for(int i = 0; i < n; ++i) jobs.push_back(draw_job(i, style, &fixed));
    const auto start = listing();
    std::string what;
    for(auto& j : jobs) what += "{" + j.name + "} ";
    sim::note("%s", what.c_str());

    std::map<std::string, size_t> owner;
    for(size_t i = 0; i < jobs.size(); ++i) // the inputs of the trimmers
        for(auto& f : start)
            if(!jobs[i].input.empty() && same_file(f.first, jobs[i].input)) owner[f.first] = i;
    for(size_t i = 0; i < jobs.size(); ++i) {
        auto& j = jobs[i];
        j.alone = sim::run_process(j.spec, j.fn);
        if(!j.alone.exited || j.alone.exit_status != 0)
            sim::fail("alone", "%s alone: %s", j.name.c_str(), describe(j.alone).c_str());
        for(auto& f : listing()) {
            const auto it = start.find(f.first);
            if(it == start.end() || it->second != f.second) {
                j.left.insert(f);
                const auto o = owner.emplace(f.first, i);
                if(!o.second && o.first->second != i)
                    sim::fail("shared", "%s and %s both leave %s", jobs[o.first->second].name.c_str(), j.name.c_str(), f.first.c_str());
            }
        }
        if(!j.output.empty()) {
            bool there;
            check_rows("rows", j.name, sim::slurp(j.output, &there), j.rows, "alone");
        }
        restore(start);
    }

    const int rounds = int(sim::draw(1, 2));
    for(int k = 0; k < rounds; ++k) {
        static const int quanta[] = {3, 1, 12, 60, 400};
        const int quantum = quanta[sim::draw(0, 4)];
        const int victim  = sim::chance(65) ? int(sim::draw(0, n - 1)) : -1;
        const int harm    = victim >= 0 ? int(sim::draw(PL_HARD, PL_CRASH)) : PL_NONE;
        const bool again  = harm == PL_CRASH && sim::chance(50);
        std::vector<sim::SideJob> side;
        std::string how;
        for(int i = 0; i < n; ++i) {
            sim::SideJob s;
            s.spec = jobs[size_t(i)].spec;
            s.fn   = jobs[size_t(i)].fn;
            const auto& a = jobs[size_t(i)].alone;
            std::string plan;
            if(i == victim) {
                if(harm == PL_CRASH && a.ticks && sim::chance(40)) {
                    s.spec.crash_at_tick = uint64_t(sim::draw(1, int64_t(a.ticks)));
                    plan                 = " crash in product " + std::to_string(s.spec.crash_at_tick);
                } else
                    plan = draw_plan_kind(s.spec.io, harm, a.ops);
            } else if(sim::chance(30))
                plan = draw_plan_kind(s.spec.io, PL_BENIGN, a.ops);
            if(!plan.empty()) how += "[" + std::to_string(i) + plan + "] ";
            side.push_back(s);
        }
        // a trimmed file is not trimmed again: what is there after a crash is another input
        const bool restart = again && jobs[size_t(victim)].kind != K_TRIM;
        if(restart) {
            sim::SideJob s;
            s.spec  = jobs[size_t(victim)].spec;
            s.fn    = jobs[size_t(victim)].fn;
            s.after = victim;
            side.push_back(s);
            sim::fault_fired(sim::F_RESTART);
        }
        sim::note("round %d quantum %d %s%s", k, quantum, how.c_str(), restart ? "restart" : "");
        const auto all     = what + how + (restart ? "restart" : "");
        const auto results = sim::run_side_by_side(side, quantum);
        const auto now     = listing();
        for(size_t i = 0; i < results.size(); ++i) {
            const auto& r = results[i];
            const auto& j = jobs[i < jobs.size() ? i : size_t(victim)];
            if(r.hung) sim::fail("hang", "%s: %s", all.c_str(), j.name.c_str());
            if(int(i) == victim && (restart || hard_fault(r) || r.crashed_by_sim)) continue; // its own affair (C12, C13)
            check_job(all, j, r, now);
        }
        for(auto& f : start) { // what belongs to nobody stays
            if(owner.count(f.first)) continue;
            const auto it = now.find(f.first);
            if(it == now.end() || it->second != f.second) sim::fail("foreign", "%s: %s was changed", all.c_str(), f.first.c_str());
        }
        if(victim >= 0 && results[size_t(victim)].crashed_by_sim) sim::probe("one of them killed");
        if(restart) sim::probe("killed and started again");
        if(!sim::chance(25)) restore(start); // otherwise the next round finds the files of this one
        else {
            for(auto& f : start) sim::spew(f.first, f.second);
            sim::probe("older files of the same names");
        }
    }
}
