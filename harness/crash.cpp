// C12: crashes of the time-evolution programs
#include "prog.hpp"

using namespace h;

const sim::CheckInfo sim::info = {
    "C12", "crash",
    "one run: one of six time-evolution programs with drawn parameters runs undisturbed, then again as a process that dies "
    "at a drawn instant (inside a matrix product, before or inside a file operation, also with short or interrupted writes "
    "before), and is sometimes started once more after the crash",
    "programs real_1d_rk4, _coefficients, _jump, real_1d_kinetic_rk4, _coefficients, real_2d_rk4_jump with everything they use",
    "OpenMP runtime, heap, files (simulated); Blaze types and spdlog (stand-ins)"};

void sim::zygote() {}

void sim::scenario()
{
    auto c               = draw_case(sim::thorough() ? 16 : 8, sim::thorough() ? 225 : 160);
    const auto rows      = reference_rows(c);
    const auto args      = command_line(c);
    const auto file      = std::string(c.info().file) + ".txt";
    const auto what_base = c.info().file + (" " + join(args));
    sim::ProcSpec spec;
    spec.max_threads = draw_threads();
    const auto dry   = run_program(c.info().main, c.info().file, args, spec);
    if(!dry.exited || dry.exit_status != 0) sim::fail("exit", "%s: %s", what_base.c_str(), describe(dry).c_str());
    const auto full = sim::slurp(file);
    check_rows("rows", what_base, full, rows, "undisturbed");
    const auto header = header_text(full);
    const int crashes = int(sim::draw(1, sim::thorough() ? 4 : 2));
    for(int k = 0; k < crashes; ++k) {
        auto s = spec;
        s.io.clear();
        s.crash_at_tick = 0;
        draw_benign(s.io, dry.ops, 2);
        const int how = int(sim::draw(0, 4));
        char where[120];
        if(how == 4) { // memory runs out: it stops by itself
            snprintf(where, sizeof where, "%s", draw_out_of_memory(s, dry.allocs).c_str());
        } else if(how <= 1 && dry.ticks) {
            s.crash_at_tick = uint64_t(sim::draw(1, int64_t(dry.ticks)));
            snprintf(where, sizeof where, " crash in product %llu of %llu", (unsigned long long)s.crash_at_tick,
                     (unsigned long long)dry.ticks);
        } else {
            static const int cls[] = {sim::IO_WRITE, sim::IO_WRITE, sim::IO_LOG, sim::IO_OPEN, sim::IO_CLOSE};
            const int op           = cls[sim::draw(0, 4)];
            if(!dry.ops[op]) continue;
            const auto at   = uint64_t(sim::draw(1, int64_t(dry.ops[op])));
            const bool torn = op == sim::IO_WRITE && sim::chance(60);
            s.io.push_back({op, at, torn ? sim::A_TORN : sim::A_CRASH, sim::draw(0, 999)});
            snprintf(where, sizeof where, "%s", describe(s.io.back()).c_str());
        }
        sim::note("%s%s", what_base.c_str(), where);
        const auto what = what_base + where;
        const auto old  = leave_old(file);
        const auto r    = run_program(c.info().main, c.info().file, args, s);
        if(r.hung) sim::fail("hang", "%s", what.c_str());
        const auto text = sim::slurp(file);
        const bool oom = r.fired[sim::F_BADALLOC] > 0;
        if(oom) check_ending(what, r, true);
        if(!r.crashed_by_sim && !(oom && !(r.exited && r.exit_status == 0))) { // short writes shift the counts: it may have come through
            if(!r.exited || r.exit_status != 0) sim::fail("exit", "%s: %s", what.c_str(), describe(r).c_str());
            check_rows("rows", what, text, rows, "no crash");
            continue;
        }
        if(!old.empty() && text == old) { // not even opened yet
            if(r.ticks) sim::fail("lost", "%s: died in product %llu, but the file is still that of an older run", what.c_str(), (unsigned long long)r.ticks);
            continue;
        }
        const auto n = check_prefix("prefix", what, text, header, rows);
        // rows whose integration went on: the products per step are those of the undisturbed run
        const auto last = dry.ticks ? r.ticks : 0; // this product was entered
        size_t acked    = 0;
        std::vector<uint64_t> tick_of;
        uint64_t steps = 0;
        { // number of steps of the undisturbed run
            double t = 0.;
            for(; t < c.t_end; ++steps) t += c.dt;
        }
        if(steps && dry.ticks % steps == 0) {
            reference_steps(c, &tick_of);
            const auto per = dry.ticks / steps;
            for(auto st : tick_of)
                if(st * per < last) ++acked;
        }
        if(n < acked)
            sim::fail("lost", "%s: died in product %llu, but only %zu of %zu finished measurements are in the file", what.c_str(),
                      (unsigned long long)last, n, acked);
        if(acked) sim::probe("measurements acknowledged before the crash");
        if(text.size() > header.size() && text.back() != '\n') sim::probe("row cut off");
        if(text.size() < header.size()) sim::probe("header cut off");
        if(sim::chance(25)) {
            sim::fault_fired(sim::F_RESTART);
            const auto again = run_program(c.info().main, c.info().file, args, spec);
            if(!again.exited || again.exit_status != 0) sim::fail("exit", "%s, restarted: %s", what.c_str(), describe(again).c_str());
            check_rows("rows", what, sim::slurp(file), rows, "restarted after the crash");
        }
    }
}
