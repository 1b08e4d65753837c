// C17: trimming an output file
#include "files.hpp"
#include <sys/stat.h>
#include <unistd.h>

using namespace h;

const sim::CheckInfo sim::info = {
    "C17", "trim",
    "one run: an output file of drawn lines (comments, blanks, rows of drawn length, CRLF, with or without last newline) is "
    "trimmed to a drawn number of rows in a process of its own under drawn file faults or a crash; sometimes an old backup "
    "is there or the file is missing; sometimes the result is trimmed again",
    "clean_output_file, io/line.hpp, logging",
    "files and heap (simulated); Blaze types and spdlog (stand-ins)"};

void sim::zygote() {}

namespace
{
    bool is_row(const std::string& l)
    {
        const auto p = l.find_first_not_of(" \t\v\f\r");
        return p != std::string::npos && l[p] != '#';
    }
    size_t rows_in(const std::string& t)
    {
        size_t n = 0;
        for(size_t p = 0; p < t.size();) {
            size_t e = t.find('\n', p);
            if(e == std::string::npos) e = t.size();
            n += is_row(t.substr(p, e - p));
            p = e + 1;
        }
        return n;
    }
    std::string draw_text()
    {
        std::string t;
        const bool many = sim::chance(4);
        const int lines = int(many ? (sim::chance(5) ? sim::draw(65000, 80000) : sim::draw(200, 1500)) : sim::draw(0, 14));
        sim::Rng rows(many ? uint64_t(lines) : 0);
        static const char* const few[] = {"0\t0.5",      "0.1\t0.25", "# program     \thubbard", "#", "", "  # 1 2", " \t", "1e-05\t-3\t7",
                                          "12\tnan",     "#\r",       "5\t6\r",                 "\r", "\f7"};
        for(int i = 0; i < lines; ++i) {
            const int k = many ? (rows.coin(.9) ? 0 : int(rows.below(13))) : int(sim::draw(0, 15));
            if(k < 13)
                t += few[k];
            else {
                sim::Rng r(uint64_t(sim::draw(0, 1 << 16)));
                const size_t n = k == 13 ? r.below(40) : k == 14 ? r.below(1200) : r.coin(0.2) ? r.below(150000) : 8000 + r.below(800);
                if(r.coin(0.2)) t += '#';
                for(size_t j = 0; j < n; ++j) t += "0123456789\t.-e "[r.below(15)];
            }
            if(i + 1 < lines || !sim::chance(30)) t += '\n';
        }
        return t;
    }
} // namespace

void sim::scenario()
{
    static const char* const paths[] = {"out.txt", "a b.dat", "noextension", "d.1/x", "./o.txt", nullptr};
    const int where = int(sim::draw(0, 5));
    ::mkdir("d.1", 0700);
    char cwd[400];
    const std::string path = paths[where] ? paths[where] : std::string(getcwd(cwd, sizeof cwd)) + "/absolute.txt", bak = path + ".bak";
    auto original = draw_text();
    if(sim::chance(30)) sim::spew(bak, "1\t2\nold backup\n");
    const bool missing = sim::chance(5);
    if(!missing) sim::spew(path, original);
    const int rounds = int(sim::draw(1, 2));
    std::string what;
    for(int k = 0; k < rounds; ++k) {
        const size_t total = rows_in(original);
        static const uint64_t large[] = {~uint64_t(0), uint64_t(1) << 32, (uint64_t(1) << 32) + 1, uint64_t(1) << 31, uint64_t(1) << 63, 65536, 256};
        const auto entries = sim::chance(10) ? large[sim::draw(0, 6)] : uint64_t(sim::draw(0, int64_t(total) + 3));
        sim::ProcSpec spec;
        const uint64_t ops[sim::IO_NOPS] = {3, 1 + original.size() / 8000, 2 + original.size() / 8000, 2, 2, 20};
        const auto plan = draw_plan_kind(spec.io, int(sim::draw(0, 3)), ops);
        // memory runs out during the call
        const auto oom       = plan.empty() && sim::chance(20) ? uint64_t(sim::draw(1, sim::chance(80) ? 40 : 40 + 3 * int64_t(total))) : 0;
        const uint64_t count = oom && sim::chance(30) ? ~uint64_t(0) >> 1 : 1;
        char b[300];
        snprintf(b, sizeof b, "[%zu bytes, %zu rows, keep %lld%s%s%s%s] ", original.size(), total, (long long)entries, missing ? ", missing" : "",
                 plan.c_str(), oom ? (" out of memory at " + std::to_string(oom)).c_str() : "", count > 1 ? " and later" : "");
        what += b;
        sim::note("%s", b);
        SharedArray<int> state(1);
        const auto r = sim::run_process(spec, [&] {
            get_loggers().init("trim.log");
            state[0] = 1;
            try {
                if(oom) sim::heap_fail_at(oom, count);
                clean_output_file(path, entries);
                sim::heap_fail_off();
                state[0] = 2;
            } catch(const std::exception&) {
                sim::heap_fail_off();
                state[0] = 3;
            }
            return 0;
        });
        if(r.hung) sim::fail("hang", "%s", what.c_str());
        bool there, there_bak;
        const auto now  = sim::slurp(path, &there);
        const auto kept = sim::slurp(bak, &there_bak);
        if(missing) {
            if(state[0] == 2) sim::fail("unreported", "%s: success", what.c_str());
            return;
        }
        if(state[0] != 2) { // died or reported failure
            if(!r.crashed_by_sim && !r.exited && !(state[0] == 0 && r.signal == SIGABRT))
                sim::fail("ending", "%s: %s", what.c_str(), describe(r).c_str());
            if(!r.crashed_by_sim && !hard_fault(r)) sim::fail("spurious", "%s: failure without a disk error", what.c_str());
            if(!(there && now == original) && !(there_bak && kept == original))
                sim::fail("lost", "%s: the original data is neither in the file (%zu bytes) nor in its backup (%zu bytes)", what.c_str(),
                          now.size(), kept.size());
            sim::probe(r.crashed_by_sim ? "died" : "reported failure");
            return;
        }
        // died after it had finished, or finished
        if(!there) sim::fail("result", "%s: no file", what.c_str());
        if(now.size() > original.size() || original.compare(0, now.size(), now) != 0)
            sim::fail("result", "%s: the result is not a beginning of the original", what.c_str());
        if(!now.empty() && now.size() < original.size() && now.back() != '\n')
            sim::fail("result", "%s: the result ends within a line", what.c_str());
        const auto want = std::min<uint64_t>(entries, total);
        if(rows_in(now) != want)
            sim::fail("result", "%s: %zu rows instead of %llu", what.c_str(), rows_in(now), (unsigned long long)want);
        if(entries == want && !now.empty()) { // nothing after the last row
            const auto last = now.find_last_of('\n', now.size() - 2);
            if(entries == 0 || !is_row(now.substr(last == std::string::npos ? 0 : last + 1)))
                sim::fail("result", "%s: the result goes on after its last row", what.c_str());
        }
        original = now;
    }
}
