// C16: checkpoints
#include "files.hpp"
#include <map>

using namespace h;

const sim::CheckInfo sim::info = {
    "C16", "checkpoint",
    "one run: up to three processes in turn write up to five checkpoints each (drawn sizes; one or several element types, "
    "orientations and prefixes) under drawn file faults or a crash; after each, all checkpoints on disk are read back; then one is read "
    "damaged, missing, or with faulty reads",
    "write_checkpoint_file, read_checkpoint_file, logging",
    "files and heap (simulated); Blaze vectors, their serialisation and spdlog (stand-ins)"};

void sim::zygote() {}

namespace
{
    enum { NOT_CALLED, CALLED, DONE, FAILED };
    static const char* const prefixes[] = {"out_checkpoint_", "a b_", "x.y_"};
    struct Stored {
        double t;
        std::vector<Complex> v;
        int kind, prefix;
    };
    using Number = std::pair<int, size_t>; // prefix and number

    template <typename T>
    T element(Complex z);
    template <>
    Complex element<Complex>(Complex z) { return z; }
    template <>
    double element<double>(Complex z) { return z.real(); }

    std::string cp_path(const std::string& prefix, size_t i, const char* ext) { return prefix + std::to_string(i) + ext; }

    // reads a checkpoint in a process of its own: 1 equal, 2 different, 3 exception
    template <typename Vector>
    int read_back(const std::string& what, const std::string& path, const std::vector<Complex>& want, const sim::ProcSpec& s,
                  sim::ProcResult* res = nullptr, bool may_abort = false)
    {
        const auto r = sim::run_process(s, [&] {
            get_loggers().init("reader.log");
            Vector v;
            if(want.size() % 2) v.resize(want.size() / 2);
            try {
                read_checkpoint_file(path, v);
            } catch(const std::exception&) {
                return 3;
            }
            if(v.size() != want.size()) return 2;
            for(size_t i = 0; i < want.size(); ++i)
                if(std::memcmp(&v[i], &(const typename Vector::ElementType&)element<typename Vector::ElementType>(want[i]), sizeof(v[i])) != 0)
                    return 2;
            return 1;
        });
        if(res) *res = r;
        if(r.crashed_by_sim) return 4;
        if(r.hung) sim::fail("hang", "%s: reading %s", what.c_str(), path.c_str());
        if(may_abort && r.signal == SIGABRT) return 3; // before or after the call
        if(!r.exited) sim::fail("crash", "%s: reading %s: %s", what.c_str(), path.c_str(), describe(r).c_str());
        return r.exit_status;
    }

    int read_back(const std::string& what, const std::string& path, const Stored& s, const sim::ProcSpec& spec, sim::ProcResult* res = nullptr,
                  bool may_abort = false)
    {
        switch(s.kind) {
            case 0: return read_back<blaze::DynamicVector<Complex, blaze::columnVector>>(what, path, s.v, spec, res, may_abort);
            case 1: return read_back<blaze::DynamicVector<double, blaze::columnVector>>(what, path, s.v, spec, res, may_abort);
            case 2: return read_back<blaze::DynamicVector<Complex, blaze::rowVector>>(what, path, s.v, spec, res, may_abort);
            default: return read_back<blaze::DynamicVector<double, blaze::rowVector>>(what, path, s.v, spec, res, may_abort);
        }
    }
    // writes a checkpoint, once or twice; false when the vector was changed
    template <typename T, bool TF>
    bool write_one(const Stored& s, bool retry, int* state, uint64_t oom, uint64_t count)
    {
        blaze::DynamicVector<T, TF> v(s.v.size());
        for(size_t k = 0; k < v.size(); ++k) v[k] = element<T>(s.v[k]);
        for(int attempt = 0; attempt < 2; ++attempt) {
            state[attempt] = CALLED;
            try {
                if(oom && attempt == 0) sim::heap_fail_at(oom, count);
                write_checkpoint_file(prefixes[s.prefix], v, s.t);
                sim::heap_fail_off();
                state[attempt] = DONE;
                break;
            } catch(const std::exception&) {
                sim::heap_fail_off();
                state[attempt] = FAILED;
            }
            if(!retry) break;
        }
        for(size_t k = 0; k < v.size(); ++k)
            if(std::memcmp(&v[k], &(const T&)element<T>(s.v[k]), sizeof(T)) != 0) return false;
        return true;
    }
    void run()
    {
        const int common_prefix = int(sim::draw(0, 2)), common_kind = int(sim::draw(0, 3));
        const bool mixed = sim::chance(25);
        const int processes       = int(sim::draw(1, 3));
        std::vector<Stored> all; // every vector ever passed, identified by its time
        std::map<Number, Stored> intact; // what must still be readable under each number
        std::string what;
        size_t most = 48;
        double time = double(sim::draw(0, 3)) * 0.25;
        for(int p = 0; p < processes; ++p) {
            const bool many = sim::chance(1) && sim::chance(20); // small ones, but more than a byte counts
            const size_t m  = size_t(many ? sim::draw(100, 300) : sim::chance(6) ? sim::draw(9, 14) : sim::draw(1, 5));
            most            = std::max(most, 2 * m);
            std::vector<Stored> mine;
            uint64_t writes = 0;
            for(size_t i = 0; i < m; ++i) {
                Stored s;
                static const int sizes[] = {0, 1, 3, 10, 100, 700, 4000};
                const auto size = size_t(sizes[sim::draw(0, many ? 2 : 6)]);
                if(size) s.v = draw_vec(size);
                s.t = time += double(sim::draw(1, 40)) * 0.25;
                s.kind   = mixed ? int(sim::draw(0, 3)) : common_kind;
                s.prefix = mixed && sim::chance(40) ? int(sim::draw(0, 2)) : common_prefix;
                writes += 3 + s.v.size() * (s.kind % 2 ? 8 : 16) / 8000;
                mine.push_back(s);
                all.push_back(s);
            }
            const bool retry = sim::chance(50), go_on = retry || sim::chance(50);
            sim::ProcSpec spec;
            const uint64_t ops[sim::IO_NOPS] = {1 + 2 * m, writes, 0, 2 * m, m, 11 + 4 * m};
            const auto plan = draw_plan_kind(spec.io, int(sim::draw(0, 3)), ops);
            // memory runs out in one of them
            const auto oom_in    = plan.empty() && sim::chance(25) ? size_t(sim::draw(0, int64_t(m) - 1)) : m;
            const auto oom       = oom_in < m ? uint64_t(sim::draw(1, 40)) : 0;
            const uint64_t count = oom && sim::chance(30) ? ~uint64_t(0) >> 1 : 1;
            char b[300];
            snprintf(b, sizeof b, "[%zu checkpoints%s%s%s%s] ", m, plan.c_str(), retry ? " retry" : go_on ? " continue" : "",
                     oom ? (" out of memory in " + std::to_string(oom_in) + " at " + std::to_string(oom)).c_str() : "",
                     count > 1 ? " and later" : "");
            what += b;
            sim::note("%s", b);
            SharedArray<int> state(2 * m);
            const auto r = sim::run_process(spec, [&] {
                get_loggers().init("writer.log");
                for(size_t i = 0; i < m; ++i) {
                    bool same;
                    switch(mine[i].kind) {
                        case 0: same = write_one<Complex, blaze::columnVector>(mine[i], retry, &state[2 * i], i == oom_in ? oom : 0, count); break;
                        case 1: same = write_one<double, blaze::columnVector>(mine[i], retry, &state[2 * i], i == oom_in ? oom : 0, count); break;
                        case 2: same = write_one<Complex, blaze::rowVector>(mine[i], retry, &state[2 * i], i == oom_in ? oom : 0, count); break;
                        default: same = write_one<double, blaze::rowVector>(mine[i], retry, &state[2 * i], i == oom_in ? oom : 0, count);
                    }
                    if(!same) return 5;
                    if(state[2 * i] == FAILED && !go_on) return 0;
                }
                return 0;
            });
            if(r.hung) sim::fail("hang", "%s", what.c_str());
            bool no_log = false; // nothing was called: logging could not start
            if(!r.crashed_by_sim && (!r.exited || r.exit_status != 0)) {
                no_log = state[0] == NOT_CALLED && r.signal == SIGABRT && hard_fault(r);
                if(!no_log) sim::fail("ending", "%s: %s", what.c_str(), describe(r).c_str());
            }
            // what happened, in order
            size_t next = 0; // number of the next checkpoint of this process
            bool hit    = false; // number next was at least partly written over
            for(size_t i = 0; i < m; ++i)
                for(int a = 0; a < 2; ++a) {
                    const int s = state[2 * i + size_t(a)];
                    if(s == NOT_CALLED) continue;
                    if(s == DONE) {
                        intact[Number(mine[i].prefix, next++)] = mine[i];
                        hit            = false;
                        continue;
                    }
                    hit = true;
                    intact.erase(Number(mine[i].prefix, next));
                    if(s == FAILED && !hard_fault(r)) sim::fail("spurious", "%s: checkpoint failed without a disk error", what.c_str());
                    if(s == CALLED && !r.crashed_by_sim) sim::fail("ending", "%s: lost in a checkpoint: %s", what.c_str(), describe(r).c_str());
                }
            if(hit) sim::probe(r.crashed_by_sim ? "died in a checkpoint" : "failed checkpoint");
            // finished checkpoints, and those of earlier processes not reached by this one
            for(auto& c : intact) {
                const auto bl = cp_path(prefixes[c.first.first], c.first.second, ".blaze"),
                           in = cp_path(prefixes[c.first.first], c.first.second, ".info");
                char t[40];
                snprintf(t, sizeof t, "%g\n", c.second.t);
                if(sim::slurp(in) != t)
                    sim::fail("info", "%s: %s is \"%s\" instead of \"%s\"", what.c_str(), in.c_str(), sim::slurp(in).c_str(), t);
                if(!sim::file_exists(bl) || read_back(what, bl, c.second, sim::ProcSpec()) != 1)
                    sim::fail("intact", "%s: checkpoint %s does not hold its vector", what.c_str(), bl.c_str());
            }
            // whatever else is there must not claim a time without having its vector
            for(size_t k = 0; k < 3 * most; ++k) {
                const int prefix = int(k / most);
                const size_t n   = k % most;
                if(intact.count(Number(prefix, n)) || (!mixed && prefix != common_prefix)) continue;
                bool there;
                const auto t = sim::slurp(cp_path(prefixes[prefix], n, ".info"), &there);
                if(!there || t.empty() || t.back() != '\n') continue;
                const double x = std::strtod(t.c_str(), nullptr);
                bool known     = false;
                for(auto& s : all)
                    if(s.t == x) {
                        known = true;
                        if(read_back(what, cp_path(prefixes[prefix], n, ".blaze"), s, sim::ProcSpec()) != 1)
                            sim::fail("claims", "%s: info file %zu records t=%g, but its vector file does not hold that vector", what.c_str(),
                                      n, x);
                    }
                if(!known) sim::fail("claims", "%s: info file %zu records an unknown time %s", what.c_str(), n, t.c_str());
            }
            if(r.crashed_by_sim) sim::fault_fired(sim::F_RESTART);
        }
        // reading under difficulties
        if(intact.empty()) return;
        auto it = intact.begin();
        std::advance(it, sim::draw(0, int64_t(intact.size()) - 1));
        const auto bl   = cp_path(prefixes[it->first.first], it->first.second, ".blaze");
        const auto data = sim::slurp(bl);
        const int how   = int(sim::draw(0, 5));
        sim::ProcSpec spec;
        sim::ProcResult r;
        if(how == 0) { // cut off
            const auto len = size_t(sim::draw(0, int64_t(data.size()) - 1));
            sim::spew("cut.blaze", data.substr(0, len));
            if(read_back(what, "cut.blaze", it->second, spec) != 3)
                sim::fail("unreported", "%s: a file with %zu of %zu bytes was read without complaint", what.c_str(), len, data.size());
        } else if(how == 1) {
            if(read_back(what, "missing.blaze", it->second, spec) != 3)
                sim::fail("unreported", "%s: a missing file was read without complaint", what.c_str());
        } else if(how == 2) { // awkward reads
            const uint64_t ops[sim::IO_NOPS] = {2, 1, 2 + data.size() / 8000, 1, 0, 12};
            draw_benign(spec.io, ops, 4, false);
            const int k = read_back(what, bl, it->second, spec);
            if(k != 1) sim::fail("absorb", "%s: short or interrupted reads of %s: %d", what.c_str(), bl.c_str(), k);
        } else if(how == 3) { // failing reads
            spec.io.push_back({sim::IO_READ, uint64_t(sim::draw(1, int64_t(2 + data.size() / 8000))),
                               sim::chance(50) ? sim::A_ERR : sim::A_ERR_FOREVER, EIO});
            const int k = read_back(what, bl, it->second, spec, &r);
            if(k == 2) sim::fail("unreported", "%s: reading %s failed and gave a wrong vector without complaint", what.c_str(), bl.c_str());
        } else if(how == 5) { // no memory
            spec.alloc_fail_at = uint64_t(sim::draw(1, 60));
            if(sim::chance(30)) spec.alloc_fail_count = ~uint64_t(0) >> 1;
            const int k = read_back(what, bl, it->second, spec, &r, true);
            if(k == 2) sim::fail("unreported", "%s: memory ran out while %s was read, which gave a wrong vector", what.c_str(), bl.c_str());
            if(k == 3 && !r.fired[sim::F_BADALLOC]) sim::fail("absorb", "%s: reading %s failed", what.c_str(), bl.c_str());
        } else { // failing open
            spec.io.push_back({sim::IO_OPEN, 2, sim::A_ERR_FOREVER, EMFILE});
            const int k = read_back(what, bl, it->second, spec, &r);
            if(k == 2) sim::fail("unreported", "%s: %s could not be opened and gave a wrong vector", what.c_str(), bl.c_str());
        }
    }
} // namespace

void sim::scenario()
{
    run();
}
