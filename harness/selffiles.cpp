// Self-test of the simulated files: a process that writes and reads by several interfaces and looks at every result must
// notice every fault that leaves a file incomplete, and benign faults must go unnoticed.
#include "prog.hpp"
#include <fstream>
#include <iostream>

using namespace h;
const sim::CheckInfo sim::info = {"SELF", "files", "one run: a process that writes and reads files and standard output", "C and C++ library", "files"};
void sim::zygote() {}

static int work(int kind, int rows, int* noticed)
{
    const char* const line = "a line of text, number ";
    bool good = true;
    if(kind == 0) {
        FILE* f = fopen("x.txt", "w");
        if(!f) return 1;
        for(int i = 0; i < rows; ++i) good &= fprintf(f, "%s%d\n", line, i) > 0;
        good &= fclose(f) == 0;
    } else if(kind == 1) {
        std::ofstream f("x.txt");
        for(int i = 0; i < rows; ++i) f << line << i << '\n';
        f.close();
        good = bool(f);
    } else {
        if(kind == 3) std::ios::sync_with_stdio(false);
        for(int i = 0; i < rows; ++i)
            if(kind == 4)
                good &= printf("%s%d\n", line, i) > 0;
            else
                std::cout << line << i << '\n';
        std::cout.flush();
        good &= fflush(stdout) == 0 && !ferror(stdout) && std::cout;
    }
    if(!good) return 2;
    if(kind > 1) return 0;
    std::string all, buf;
    if(rows % 2) {
        FILE* f = fopen("x.txt", "r");
        if(!f) return 3;
        int c;
        if(rows > 3 && fseek(f, 10, SEEK_SET)) return 4;
        if(rows > 3 && ftell(f) != 10) return 5;
        if(rows > 3) rewind(f);
        while((c = fgetc(f)) != EOF) all += char(c);
        good = !ferror(f);
        fclose(f);
    } else {
        std::ifstream f("x.txt");
        if(!f) return 3;
        while(std::getline(f, buf)) all += buf + '\n';
        good = !f.bad();
    }
    if(!good) return 6;
    *noticed = int(std::count(all.begin(), all.end(), '\n')) != rows;
    return *noticed ? 50 : 0;
}
void sim::scenario()
{
    const int kind = int(sim::draw(0, 4)), rows = int(sim::draw(0, 900));
    std::string want;
    for(int i = 0; i < rows; ++i) want += "a line of text, number " + std::to_string(i) + '\n';
    sim::ProcSpec spec;
    spec.simulate_stdout = true;
    int dummy = 0;
    auto run = [&](const sim::ProcSpec& s) { return sim::run_process(s, [&] { return work(kind, rows, &dummy); }); };
    auto text = [&](const sim::ProcResult& r) { return kind > 1 ? r.out : sim::slurp("x.txt"); };
    const auto dry = run(spec);
    if(!dry.exited || dry.exit_status != 0 || text(dry) != want) sim::fail("files", "kind %d: %s", kind, describe(dry).c_str());
    if(kind < 2 && (!dry.ops[sim::IO_OPEN] || !dry.ops[sim::IO_CLOSE] || !dry.ops[sim::IO_READ])) sim::fail("files", "no operations");
    if(rows && !dry.ops[sim::IO_WRITE]) sim::fail("files", "kind %d: no writes", kind);
    for(int k = 0; k < 4; ++k) {
        auto s          = spec;
        const bool oom  = sim::chance(10), hard = oom || sim::chance(75);
        const auto what = std::to_string(kind) + (oom ? draw_out_of_memory(s, dry.allocs) : draw_plan(s.io, dry.ops, hard));
        const auto r    = run(s);
        if((!r.exited && !(oom && r.signal == SIGABRT)) || r.exit_status == 50) sim::fail("files", "%s: %s", what.c_str(), describe(r).c_str());
        if(!hard && r.exit_status) sim::fail("files", "%s: not absorbed, status %d", what.c_str(), r.exit_status);
        if(r.exited && r.exit_status == 0 && text(r) != want) sim::fail("files", "%s: not noticed", what.c_str());
    }
}
