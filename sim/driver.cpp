// Campaign driver: forks workers, each worker forks one process per simulated run; collects
// results, checks determinism, minimises violations, writes and replays replay files.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "internal.h"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <map>
#include <sched.h>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

using namespace sim;

namespace
{
    struct Opt {
        uint64_t seed   = 1;
        uint64_t runs   = 1000;
        uint64_t calib  = 24;
        double seconds  = 30;
        int workers     = 8;
        bool thorough   = false;
        std::string raw, known, replay_out, replay;
        uint64_t det_every = 40;
        bool dump          = false; // print hash of every run
        uint64_t only      = ~0ull;
    } O;

    std::string g_base;
    pid_t g_owner;

    double now()
    {
        struct timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
    }

    void empty_dir(const std::string& d)
    {
        DIR* p = opendir(d.c_str());
        if(!p) return;
        while(struct dirent* e = readdir(p)) {
            if(!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
            std::string f = d + "/" + e->d_name;
            struct stat st;
            if(lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
                empty_dir(f);
                rmdir(f.c_str());
            } else {
                unlink(f.c_str());
            }
        }
        closedir(p);
    }

    struct Result {
        int status = ST_NONE;
        std::string cls, msg;
        uint64_t hash = 0, dig = 0;
    };

    struct Worker {
        int id;
        std::string top, dir;
        Shared* sh;
    };

    Worker make_worker(int id)
    {
        Worker w;
        w.id  = id;
        w.top = g_base + "/w" + std::to_string(id);
        w.dir = w.top + "/run";
        mkdir(w.top.c_str(), 0700);
        mkdir(w.dir.c_str(), 0700);
        w.sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if(w.sh == MAP_FAILED) _exit(3);
        return w;
    }

    void reset_shared(Shared* s)
    {
        // clear everything that is read, not the (large) record arrays
        s->status = ST_NONE;
        s->cls[0] = s->msg[0] = 0;
        s->hash = 0x1234567ull;
        s->dig  = 0;
        s->steps = s->events = s->switches = s->regions = s->procs = s->simtime_ns = 0;
        s->maxteam = 0;
        memset(s->fired, 0, sizeof s->fired);
        s->ndraws = s->nteams = s->nsw = s->sw_overflow = s->nsites = s->nprobes = s->nnotes = 0;
        memset(s->probe_cnt, 0, sizeof s->probe_cnt);
        memset(s->p_ops, 0, sizeof s->p_ops);
        memset(s->p_fired, 0, sizeof s->p_fired);
        s->p_ticks = 0;
        s->p_crashed = s->p_hung = s->abort_allowed = 0;
    }

    // one run in a fresh process
    Result run_once(Worker& w, const RunConfig& cfg)
    {
        empty_dir(w.dir);
        reset_shared(w.sh);
        std::string ep = w.top + "/stderr";
        fflush(nullptr);
        pid_t pid = fork();
        if(pid < 0) {
            fprintf(stderr, "fork failed\n");
            _exit(3);
        }
        if(pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            setpgid(0, 0);
            int fd = open(ep.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            dup2(fd, 2);
            int nul = open("/dev/null", O_RDWR);
            dup2(nul, 0);
            dup2(nul, 1);
            if(chdir(w.dir.c_str()) != 0) _exit(3);
            struct rlimit rl = {90, 95};
            setrlimit(RLIMIT_CPU, &rl);
            rl = {0, 0};
            setrlimit(RLIMIT_CORE, &rl);
            rl = {256u << 20, 256u << 20};
            setrlimit(RLIMIT_FSIZE, &rl);
            run_child(w.sh, &cfg);
        }
        setpgid(pid, pid);
        int st     = 0;
        bool wall  = false;
        double t0  = now();
        int sleeps = 0;
        for(;;) {
            pid_t r = waitpid(pid, &st, WNOHANG);
            if(r == pid) break;
            if(r < 0 && errno != EINTR) break;
            double el = now() - t0;
            if(el > 240) {
                wall = true;
                kill(-pid, SIGKILL);
                waitpid(pid, &st, 0);
                break;
            }
            struct timespec ts = {0, sleeps < 20 ? 50000 : sleeps < 100 ? 200000 : 2000000};
            ++sleeps;
            clock_nanosleep(CLOCK_MONOTONIC, 0, &ts, nullptr);
        }
        kill(-pid, SIGKILL); // simulated processes left behind
        Result R;
        R.hash = w.sh->hash;
        R.dig  = w.sh->dig;
        if(wall) {
            R.status = ST_VIOLATION;
            R.cls    = "hang:wall";
            R.msg    = "no answer within 240 s";
            return R;
        }
        if(WIFSIGNALED(st)) {
            int sg   = WTERMSIG(st);
            if(sg == SIGABRT && w.sh->abort_allowed) {
                R.status = ST_OK;
                return R;
            }
            R.status = ST_VIOLATION;
            if(sg == SIGXCPU || sg == SIGKILL) {
                R.cls = sg == SIGXCPU ? "hang:cpu" : "killed";
            } else {
                R.cls = std::string("crash:") + (sg == SIGABRT ? "SIGABRT"
                                                 : sg == SIGSEGV ? "SIGSEGV"
                                                 : sg == SIGFPE  ? "SIGFPE"
                                                 : sg == SIGBUS  ? "SIGBUS"
                                                                 : std::to_string(sg).c_str());
            }
            if(sg == SIGKILL) R.status = ST_INTERNAL; // out of memory or an outside kill
            FILE* f = fopen(ep.c_str(), "r");
            std::string e;
            char b[4096];
            size_t n;
            while(f && (n = fread(b, 1, sizeof b, f)) > 0) e.append(b, n);
            if(f) fclose(f);
            if(e.size() > 1500) e = e.substr(e.size() - 1500);
            R.msg = e;
            return R;
        }
        R.status = w.sh->status;
        R.cls    = w.sh->cls;
        R.msg    = w.sh->msg;
        if(R.status == ST_NONE) { // left through exit() inside the code under test
            R.status = ST_VIOLATION;
            R.cls    = "early-exit";
            R.msg    = "the run ended without finishing its scenario, status " + std::to_string(WEXITSTATUS(st));
        }
        if(R.status == ST_VIOLATION && R.cls == "internal") R.status = ST_INTERNAL;
        return R;
    }

    uint64_t hash_str(const char* s)
    {
        uint64_t h = 1469598103934665603ull;
        while(*s) h = (h ^ (unsigned char)*s++) * 1099511628211ull;
        return h;
    }
    uint64_t run_seed(uint64_t i) { return mix(mix(O.seed, hash_str(info.component)), i); }

    // ------------------------------------------------------- known findings
    struct Known {
        std::string component, cls, match, text;
    };
    std::vector<Known> known_list()
    {
        std::vector<Known> r;
        if(O.known.empty()) return r;
        FILE* f = fopen(O.known.c_str(), "r");
        if(!f) return r;
        char line[4096];
        while(fgets(line, sizeof line, f)) {
            // finding: property=C01 component=x class=y match=<substring> -- text
            std::string l(line);
            while(!l.empty() && (l.back() == '\n' || l.back() == ' ')) l.pop_back();
            if(l.compare(0, 8, "finding:") != 0) continue;
            auto get = [&](const char* k, bool to_end) {
                std::string key = std::string(k) + "=";
                size_t p        = l.find(key);
                if(p == std::string::npos) return std::string();
                p += key.size();
                size_t e = to_end ? l.find(" -- ", p) : l.find(' ', p);
                return l.substr(p, e == std::string::npos ? e : e - p);
            };
            if(get("property", false) != info.property) continue;
            Known k;
            k.component = get("component", false);
            k.cls       = get("class", false);
            k.match     = get("match", true);
            size_t p    = l.find(" -- ");
            k.text      = p == std::string::npos ? l : l.substr(p + 4);
            if(k.component == info.component) r.push_back(k);
        }
        fclose(f);
        return r;
    }

    // --------------------------------------------------------- replay files
    struct Replay {
        RunConfig cfg;
        std::string cls, msg, notes;
        uint64_t hash = 0;
        bool by_seed  = false;
    };
    bool write_replay(const std::string& path, const Replay& r)
    {
        FILE* f = fopen(path.c_str(), "w");
        if(!f) return false;
        fprintf(f, "ieompp-sim-replay 1\nproperty %s\ncomponent %s\nseed %llu\nthorough %d\ncalibrate %d\nmode %s\n",
                info.property, info.component, (unsigned long long)r.cfg.seed, (int)r.cfg.thorough,
                (int)r.cfg.calibrate,
                r.by_seed ? "seed" : "trace");
        fprintf(f, "class %s\nhash %016llx\n", r.cls.c_str(), (unsigned long long)r.hash);
        fprintf(f, "draws");
        for(auto d : r.cfg.draws) fprintf(f, " %lld", (long long)d);
        fprintf(f, "\nteams");
        for(auto& t : r.cfg.teams) fprintf(f, " %u:%u:%u", t.proc, t.idx, t.shortby);
        fprintf(f, "\nswitches");
        for(auto& s : r.cfg.switches)
            fprintf(f, " %u:%u:%llu:%u", s.proc, s.tid, (unsigned long long)s.cnt, s.target);
        fprintf(f, "\nhot");
        for(auto h : r.cfg.hot) fprintf(f, " %llx", (unsigned long long)h);
        fprintf(f, "\n# message: ");
        for(char c : r.msg) {
            fputc(c, f);
            if(c == '\n') fprintf(f, "# ");
        }
        fprintf(f, "\n# history of the run:\n# ");
        for(char c : r.notes) {
            fputc(c, f);
            if(c == '\n') fprintf(f, "# ");
        }
        fprintf(f, "\n");
        return fclose(f) == 0;
    }
    bool read_replay(const std::string& path, Replay& r)
    {
        FILE* f = fopen(path.c_str(), "r");
        if(!f) return false;
        std::string all;
        char b[65536];
        size_t n;
        while((n = fread(b, 1, sizeof b, f)) > 0) all.append(b, n);
        fclose(f);
        size_t p = 0;
        std::string comp;
        while(p < all.size()) {
            size_t e      = all.find('\n', p);
            if(e == std::string::npos) e = all.size();
            std::string l = all.substr(p, e - p);
            p             = e + 1;
            if(l.empty() || l[0] == '#') continue;
            size_t s        = l.find(' ');
            std::string key = l.substr(0, s), v = s == std::string::npos ? "" : l.substr(s + 1);
            const char* c   = v.c_str();
            char* q;
            if(key == "seed") r.cfg.seed = strtoull(c, nullptr, 10);
            if(key == "thorough") r.cfg.thorough = atoi(c);
            if(key == "calibrate") r.cfg.calibrate = atoi(c);
            if(key == "mode") r.by_seed = v == "seed";
            if(key == "class") r.cls = v;
            if(key == "component") comp = v;
            if(key == "hash") r.hash = strtoull(c, nullptr, 16);
            if(key == "draws")
                for(;;) {
                    long long x = strtoll(c, &q, 10);
                    if(q == c) break;
                    r.cfg.draws.push_back(x);
                    c = q;
                }
            if(key == "hot")
                for(;;) {
                    unsigned long long x = strtoull(c, &q, 16);
                    if(q == c) break;
                    r.cfg.hot.push_back(x);
                    c = q;
                }
            if(key == "teams") {
                TeamRec t;
                int k;
                while(sscanf(c, " %u:%u:%u%n", &t.proc, &t.idx, &t.shortby, &k) == 3) {
                    r.cfg.teams.push_back(t);
                    c += k;
                }
            }
            if(key == "switches") {
                Switch w;
                w.pad = 0;
                unsigned long long cnt;
                int k;
                while(sscanf(c, " %u:%u:%llu:%u%n", &w.proc, &w.tid, &cnt, &w.target, &k) == 4) {
                    w.cnt = cnt;
                    r.cfg.switches.push_back(w);
                    c += k;
                }
            }
        }
        r.cfg.replay = !r.by_seed;
        return comp == info.component;
    }

    void sort_switches(std::vector<Switch>& v)
    {
        std::sort(v.begin(), v.end(), [](const Switch& a, const Switch& b) {
            if(a.proc != b.proc) return a.proc < b.proc;
            if(a.tid != b.tid) return a.tid < b.tid;
            return a.cnt < b.cnt;
        });
    }

    // ----------------------------------------------------------- minimising
    struct Min {
        Worker& w;
        std::string cls;
        RunConfig best;
        double deadline;
        uint64_t tries = 0;
        bool ok(const RunConfig& c)
        {
            ++tries;
            Result r = run_once(w, c);
            return r.status == ST_VIOLATION && r.cls == cls;
        }
        bool more() { return now() < deadline; }
        template <typename T>
        void shrink_list(std::vector<T> RunConfig::*m)
        {
            { // all at once
                RunConfig c = best;
                (c.*m).clear();
                if((best.*m).empty()) return;
                if(ok(c)) {
                    best = c;
                    return;
                }
            }
            size_t chunk = (best.*m).size() / 2;
            if(!chunk) chunk = 1;
            while(more()) {
                bool any = false;
                for(size_t i = 0; i < (best.*m).size() && more();) {
                    RunConfig c = best;
                    auto& v     = c.*m;
                    size_t e    = std::min(v.size(), i + chunk);
                    v.erase(v.begin() + i, v.begin() + e);
                    if(ok(c)) {
                        best = c;
                        any  = true;
                    } else {
                        i += chunk;
                    }
                }
                if(chunk == 1) {
                    if(!any) break;
                } else {
                    chunk = chunk / 2;
                }
            }
        }
        void shrink_draws()
        {
            for(size_t i = 0; i < best.draws.size() && more(); ++i) {
                if(best.draws[i] == 0) continue;
                RunConfig c = best;
                c.draws[i]  = 0;
                if(ok(c)) {
                    best = c;
                    continue;
                }
                int64_t lo = 0;
                for(int k = 0; k < 6 && more() && best.draws[i] - lo > 1; ++k) {
                    c          = best;
                    c.draws[i] = lo + (best.draws[i] - lo) / 2;
                    if(ok(c))
                        best = c;
                    else
                        lo = c.draws[i];
                }
            }
        }
        void go()
        {
            shrink_draws();
            shrink_list(&RunConfig::switches);
            shrink_list(&RunConfig::teams);
            shrink_draws();
            shrink_list(&RunConfig::switches);
            while(!best.draws.empty() && best.draws.back() == 0) best.draws.pop_back();
        }
    };

    // --------------------------------------------------------------- stats
    struct Stop { // shared by all workers
        int stop;
        int internal;
        uint64_t next;
        uint64_t best_violation; // lowest run index with a violation
    };
    Stop* g_stop;

    struct Stats {
        uint64_t runs = 0, det = 0, steps = 0, events = 0, switches = 0, regions = 0, procs = 0;
        uint32_t maxteam = 0;
        uint64_t fired[F_NKINDS] = {0};
        uint64_t fired_runs[F_NKINDS] = {0};
        std::set<uint64_t> hashes, digs; // hashes: non-trivial executions only
        uint64_t simtime = 0;
        std::map<std::string, uint64_t> probes, known;
        std::vector<std::string> samples;
        void write(FILE* f)
        {
            fprintf(f, "T %llu\n", (unsigned long long)simtime);
            fprintf(f, "R %llu %llu %llu %llu %llu %llu %llu %u\n", (unsigned long long)runs,
                    (unsigned long long)det, (unsigned long long)steps, (unsigned long long)events,
                    (unsigned long long)switches, (unsigned long long)regions, (unsigned long long)procs, maxteam);
            for(int i = 0; i < F_NKINDS; ++i)
                fprintf(f, "F %d %llu %llu\n", i, (unsigned long long)fired[i], (unsigned long long)fired_runs[i]);
            for(auto h : hashes) fprintf(f, "H %llx\n", (unsigned long long)h);
            for(auto h : digs) fprintf(f, "D %llx\n", (unsigned long long)h);
            for(auto& p : probes) fprintf(f, "P %llu %s\n", (unsigned long long)p.second, p.first.c_str());
            for(auto& p : known) fprintf(f, "K %llu %s\n", (unsigned long long)p.second, p.first.c_str());
            for(auto& s : samples) fprintf(f, "S %s\n", s.c_str());
        }
        void read(FILE* f)
        {
            static char line[70000];
            while(fgets(line, sizeof line, f)) {
                size_t n = strlen(line);
                if(n && line[n - 1] == '\n') line[n - 1] = 0;
                unsigned long long a[8];
                int k;
                unsigned u;
                switch(line[0]) {
                    case 'R':
                        sscanf(line + 1, "%llu %llu %llu %llu %llu %llu %llu %u", a, a + 1, a + 2, a + 3, a + 4,
                               a + 5, a + 6, &u);
                        runs += a[0];
                        det += a[1];
                        steps += a[2];
                        events += a[3];
                        switches += a[4];
                        regions += a[5];
                        procs += a[6];
                        maxteam = std::max(maxteam, u);
                        break;
                    case 'T': simtime += strtoull(line + 2, nullptr, 10); break;
                    case 'F':
                        sscanf(line + 1, "%d %llu %llu", &k, a, a + 1);
                        fired[k] += a[0];
                        fired_runs[k] += a[1];
                        break;
                    case 'H': hashes.insert(strtoull(line + 2, nullptr, 16)); break;
                    case 'D': digs.insert(strtoull(line + 2, nullptr, 16)); break;
                    case 'P':
                        sscanf(line + 1, "%llu %n", a, &k);
                        probes[line + 1 + k] += a[0];
                        break;
                    case 'K':
                        sscanf(line + 1, "%llu %n", a, &k);
                        known[line + 1 + k] += a[0];
                        break;
                    case 'S': samples.push_back(line + 2); break;
                }
            }
        }
        void add(Shared* s)
        {
            ++runs;
            steps += s->steps;
            events += s->events;
            switches += s->switches;
            regions += s->regions;
            procs += s->procs;
            maxteam = std::max(maxteam, s->maxteam);
            for(int i = 0; i < F_NKINDS; ++i) {
                fired[i] += s->fired[i];
                fired_runs[i] += s->fired[i] != 0;
            }
            simtime += s->simtime_ns;
            bool any = s->switches >= 2;
            for(int i = 0; i < F_NKINDS; ++i) any = any || s->fired[i];
            if(any) hashes.insert(s->hash);
            digs.insert(s->dig);
            for(uint32_t i = 0; i < s->nprobes; ++i) probes[s->probes[i]] += s->probe_cnt[i];
        }
    };

    std::string one_line(const std::string& s, size_t max)
    {
        std::string r;
        for(char c : s) {
            if(r.size() >= max) break;
            r += c == '\n' ? ' ' : c;
        }
        return r;
    }

    void pin(int k)
    {
        cpu_set_t all, one;
        if(sched_getaffinity(0, sizeof all, &all) != 0) return;
        int n = CPU_COUNT(&all);
        if(n < 2) return;
        int want = k % n;
        CPU_ZERO(&one);
        for(int i = 0, j = 0; i < CPU_SETSIZE; ++i)
            if(CPU_ISSET(i, &all) && j++ == want) {
                CPU_SET(i, &one);
                break;
            }
        sched_setaffinity(0, sizeof one, &one);
    }

    // report of a violation, written by the worker that found it
    void dump_violation(Worker& w, uint64_t idx, const RunConfig& cfg, const Result& r)
    {
        Replay p;
        p.cfg        = cfg;
        p.cls        = r.cls;
        p.msg        = r.msg;
        p.hash       = r.hash;
        p.cfg.replay = false;
        p.cfg.draws.assign(w.sh->draws, w.sh->draws + w.sh->ndraws);
        p.cfg.teams.assign(w.sh->teams, w.sh->teams + w.sh->nteams);
        p.cfg.switches.assign(w.sh->sw, w.sh->sw + w.sh->nsw);
        p.notes.assign(w.sh->notes, w.sh->nnotes);
        p.by_seed = w.sh->sw_overflow;
        write_replay(g_base + "/viol." + std::to_string(idx), p);
    }

    void worker_main(int id, const std::vector<uint64_t>& hot, double deadline, bool calibrate, uint64_t total)
    {
        pin(id);
        Worker w  = make_worker(id);
        auto knw  = known_list();
        Stats st;
        std::set<uint64_t> sites;
        std::string phase = calibrate ? "calib" : "main";
        for(;;) {
            if(__atomic_load_n(&g_stop->stop, __ATOMIC_SEQ_CST)) break;
            if(now() > deadline) break;
            uint64_t i = __atomic_fetch_add(&g_stop->next, 1, __ATOMIC_SEQ_CST);
            if(i >= total) break;
            uint64_t idx = calibrate ? i : i + O.calib;
            if(O.only != ~0ull) idx = O.only;
            RunConfig cfg;
            cfg.seed      = run_seed(idx);
            cfg.calibrate = calibrate;
            cfg.thorough  = O.thorough;
            cfg.hot       = hot;
            cfg.dir       = w.dir;
            Result r      = run_once(w, cfg);
            if(O.dump) printf("run %llu hash %016llx dig %016llx status %d %s\n", (unsigned long long)idx,
                              (unsigned long long)r.hash, (unsigned long long)r.dig, r.status, r.cls.c_str());
            if(calibrate)
                for(uint32_t k = 0; k < w.sh->nsites; ++k) sites.insert(w.sh->sites[k]);
            st.add(w.sh);
            if(st.samples.size() < 1 && i % 7 == 3) {
                st.samples.push_back("seed=" + std::to_string(cfg.seed) + " switches=" + std::to_string(w.sh->switches)
                                     + " regions=" + std::to_string(w.sh->regions) + " steps="
                                     + std::to_string(w.sh->steps) + " history: "
                                     + one_line(std::string(w.sh->notes, w.sh->nnotes), 1200));
            }
            if(r.status == ST_INTERNAL) {
                fprintf(stderr, "internal error in run %llu: %s %s\n", (unsigned long long)idx, r.cls.c_str(),
                        r.msg.c_str());
                g_stop->internal = 1;
                g_stop->stop     = 1;
                break;
            }
            if(r.status == ST_VIOLATION) {
                bool k = false;
                for(auto& e : knw)
                    if(e.cls == r.cls && r.msg.find(e.match) != std::string::npos) {
                        ++st.known[e.text];
                        k = true;
                    }
                if(!k) {
                    dump_violation(w, idx, cfg, r);
                    g_stop->stop = 1;
                    break;
                }
            }
            if(O.det_every && i % O.det_every == O.det_every / 2) {
                Result r2 = run_once(w, cfg);
                ++st.det;
                if(r2.hash != r.hash || r2.status != r.status || r2.dig != r.dig || r2.cls != r.cls) {
                    fprintf(stderr, "run %llu (seed %llu) is not reproducible: %016llx/%016llx %s vs %016llx/%016llx %s\n",
                            (unsigned long long)idx, (unsigned long long)cfg.seed, (unsigned long long)r.hash,
                            (unsigned long long)r.dig, r.cls.c_str(), (unsigned long long)r2.hash,
                            (unsigned long long)r2.dig, r2.cls.c_str());
                    g_stop->internal = 1;
                    g_stop->stop     = 1;
                    break;
                }
            }
        }
        FILE* f = fopen((g_base + "/" + phase + "." + std::to_string(id)).c_str(), "w");
        st.write(f);
        fclose(f);
        if(calibrate) {
            f = fopen((g_base + "/sites." + std::to_string(id)).c_str(), "w");
            for(auto s : sites) fprintf(f, "%llx\n", (unsigned long long)s);
            fclose(f);
        }
        empty_dir(w.dir);
        fflush(stdout);
        _exit(0);
    }

    void phase(bool calibrate, const std::vector<uint64_t>& hot, double deadline, uint64_t total, Stats& st)
    {
        g_stop->next = 0;
        fflush(nullptr);
        std::vector<pid_t> pids;
        for(int k = 0; k < O.workers; ++k) {
            pid_t p = fork();
            if(p == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                worker_main(k, hot, deadline, calibrate, total);
            }
            pids.push_back(p);
        }
        for(auto p : pids) {
            int s = 0;
            waitpid(p, &s, 0);
            if(!WIFEXITED(s) || WEXITSTATUS(s) != 0) {
                fprintf(stderr, "a worker failed (status %x)\n", s);
                g_stop->internal = 1;
                g_stop->stop     = 1;
            }
        }
        for(int k = 0; k < O.workers; ++k) {
            FILE* f = fopen((g_base + "/" + (calibrate ? "calib." : "main.") + std::to_string(k)).c_str(), "r");
            if(f) {
                st.read(f);
                fclose(f);
            }
        }
    }

    void json_str(FILE* f, const std::string& s)
    {
        fputc('"', f);
        for(unsigned char c : s) {
            if(c == '"' || c == '\\')
                fprintf(f, "\\%c", c);
            else if(c < 32 || c >= 127)
                fprintf(f, "\\u%04x", c);
            else
                fputc(c, f);
        }
        fputc('"', f);
    }

    void write_raw(const Stats& st, double wall, size_t nhot, int violations)
    {
        if(O.raw.empty()) return;
        FILE* f = fopen(O.raw.c_str(), "w");
        if(!f) return;
        fprintf(f, "{\n \"component\": ");
        json_str(f, info.component);
        fprintf(f, ",\n \"rule\": ");
        json_str(f, info.rule);
        fprintf(f, ",\n \"real\": ");
        json_str(f, info.real);
        fprintf(f, ",\n \"stub\": ");
        json_str(f, info.stub);
        fprintf(f, ",\n \"runs\": %llu, \"determinism_rechecks\": %llu, \"steps\": %llu, \"preemption_points\": %llu, "
                   "\"context_switches\": %llu, \"parallel_regions\": %llu, \"simulated_processes\": %llu, "
                   "\"largest_team\": %u, \"distinct_executions\": %zu, \"distinct_results\": %zu, \"simulated_ns\": %llu, "
                   "\"conflict_sites\": %zu, \"wall_s\": %.3f, \"violations\": %d,\n \"faults\": {",
                (unsigned long long)st.runs, (unsigned long long)st.det, (unsigned long long)st.steps,
                (unsigned long long)st.events, (unsigned long long)st.switches, (unsigned long long)st.regions,
                (unsigned long long)st.procs, st.maxteam, st.hashes.size(), st.digs.size(), (unsigned long long)st.simtime, nhot, wall, violations);
        bool first = true;
        for(int i = 0; i < F_NKINDS; ++i)
            if(st.fired[i]) {
                fprintf(f, "%s\n  \"%s\": {\"fired\": %llu, \"runs\": %llu}", first ? "" : ",", fault_names[i],
                        (unsigned long long)st.fired[i], (unsigned long long)st.fired_runs[i]);
                first = false;
            }
        fprintf(f, "},\n \"probes\": {");
        first = true;
        for(auto& p : st.probes) {
            fprintf(f, "%s\n  ", first ? "" : ",");
            json_str(f, p.first);
            fprintf(f, ": %llu", (unsigned long long)p.second);
            first = false;
        }
        fprintf(f, "},\n \"known\": {");
        first = true;
        for(auto& p : st.known) {
            fprintf(f, "%s\n  ", first ? "" : ",");
            json_str(f, p.first);
            fprintf(f, ": %llu", (unsigned long long)p.second);
            first = false;
        }
        fprintf(f, "},\n \"samples\": [");
        for(size_t i = 0; i < st.samples.size() && i < 4; ++i) {
            fprintf(f, "%s\n  ", i ? "," : "");
            json_str(f, st.samples[i]);
        }
        fprintf(f, "]\n}\n");
        fclose(f);
    }

    int do_replay(const std::string& path)
    {
        Replay p;
        if(!read_replay(path, p)) {
            fprintf(stderr, "cannot read replay file %s for component %s\n", path.c_str(), info.component);
            return 3;
        }
        Worker w    = make_worker(0);
        p.cfg.dir   = w.dir;
        Result r    = run_once(w, p.cfg);
        printf("replay: status=%s class=%s hash=%016llx (recorded %s %016llx)\n",
               r.status == ST_VIOLATION ? "violation" : r.status == ST_OK ? "ok" : "internal", r.cls.c_str(),
               (unsigned long long)r.hash, p.cls.c_str(), (unsigned long long)p.hash);
        printf("message: %s\nhistory:\n%.*s\n", r.msg.c_str(), (int)w.sh->nnotes, w.sh->notes);
        if(r.status != ST_VIOLATION || r.cls != p.cls) return r.status == ST_OK ? 0 : 3;
        return r.hash == p.hash ? 1 : 3;
    }

    // reduce the violation and prove that it replays
    int report(uint64_t idx, std::string& cls, std::string& msg)
    {
        Replay p;
        if(!read_replay(g_base + "/viol." + std::to_string(idx), p)) return 3;
        Worker w      = make_worker(100);
        p.cfg.dir     = w.dir;
        RunConfig raw = p.cfg;
        raw.replay    = false;
        Result a      = run_once(w, raw);
        if(a.status != ST_VIOLATION || a.cls != p.cls || a.hash != p.hash) {
            fprintf(stderr, "violation '%s' (seed %llu) did not repeat with the same seed: got '%s'\n", p.cls.c_str(),
                    (unsigned long long)raw.seed, a.cls.c_str());
            return 3;
        }
        Replay out = p;
        out.msg    = a.msg;
        RunConfig tr = p.cfg;
        tr.replay    = true;
        tr.hot.clear();
        sort_switches(tr.switches);
        Result b = run_once(w, tr);
        if(p.by_seed || b.status != ST_VIOLATION || b.cls != p.cls) {
            // the trace was too long to record: the seed is the replay
            fprintf(stderr, "note: replaying by seed (%s)\n", p.by_seed ? "trace too long" : "trace diverged");
            out.by_seed = true;
            out.cfg.switches.clear();
            out.cfg.teams.clear();
            out.hash  = a.hash;
        } else {
            Min m{w, p.cls, tr, now() + 20};
            m.go();
            // the shortest trace that repeats exactly; the seed if none does
            bool found = false;
            for(const RunConfig* t : {&m.best, &tr}) {
                Result c = run_once(w, *t);
                std::string notes(w.sh->notes, w.sh->nnotes);
                Result d = run_once(w, *t);
                if(c.status != ST_VIOLATION || c.cls != p.cls || c.hash != d.hash || d.cls != c.cls) continue;
                found       = true;
                out.cfg     = *t;
                out.msg     = c.msg;
                out.hash    = c.hash;
                out.by_seed = false;
                out.notes   = notes;
                break;
            }
            if(!found) {
                fprintf(stderr, "note: replaying by seed (traces do not repeat)\n");
                out.by_seed = true;
                out.cfg.switches.clear();
                out.cfg.teams.clear();
                out.hash = a.hash;
            }
            fprintf(stderr, "minimised in %llu runs: %zu -> %zu switches, %zu -> %zu team faults, %zu draws\n",
                    (unsigned long long)m.tries, tr.switches.size(), m.best.switches.size(), tr.teams.size(),
                    m.best.teams.size(), m.best.draws.size());
        }
        cls = out.cls;
        msg = out.msg;
        if(!write_replay(O.replay_out, out)) {
            fprintf(stderr, "cannot write %s\n", O.replay_out.c_str());
            return 3;
        }
        return 1;
    }

    void cleanup()
    {
        if(!g_base.empty() && getpid() == g_owner) { // not in simulated processes that call exit
            empty_dir(g_base);
            rmdir(g_base.c_str());
        }
    }
} // namespace

int main(int argc, char** argv)
{
    if(!getenv("SIM_NOASLR")) {
        // same addresses in every process
        setenv("SIM_NOASLR", "1", 1);
        int p = personality(0xffffffff);
        if(p >= 0 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
    }
    unsetenv("SIM_NOASLR");
    for(int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val      = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
        if(a == "--seed") O.seed = strtoull(val(), nullptr, 10);
        else if(a == "--runs") O.runs = strtoull(val(), nullptr, 10);
        else if(a == "--calib") O.calib = strtoull(val(), nullptr, 10);
        else if(a == "--seconds") O.seconds = atof(val());
        else if(a == "--workers") O.workers = atoi(val());
        else if(a == "--thorough") O.thorough = true;
        else if(a == "--raw") O.raw = val();
        else if(a == "--known") O.known = val();
        else if(a == "--replay-out") O.replay_out = val();
        else if(a == "--replay") O.replay = val();
        else if(a == "--det-every") O.det_every = strtoull(val(), nullptr, 10);
        else if(a == "--dump") O.dump = true;
        else if(a == "--only") O.only = strtoull(val(), nullptr, 10);
        else {
            fprintf(stderr, "unknown option %s\n", a.c_str());
            return 3;
        }
    }
    if(O.only != ~0ull) O.workers = 1, O.runs = 1, O.calib = 0, O.det_every = 1;
    if(O.workers < 1) O.workers = 1;
    if(O.workers > 64) O.workers = 64;
    rt_init();
    const char* roots[] = {"/dev/shm", "/tmp"};
    for(const char* r : roots) {
        std::string b = std::string(r) + "/ieosim.XXXXXX";
        std::vector<char> t(b.begin(), b.end());
        t.push_back(0);
        if(mkdtemp(t.data())) {
            g_base = t.data();
            break;
        }
    }
    if(g_base.empty()) {
        fprintf(stderr, "no scratch directory\n");
        return 3;
    }
    g_owner = getpid();
    atexit(cleanup);
    g_stop = (Stop*)mmap(nullptr, sizeof(Stop), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    zygote();
    if(!O.replay.empty()) return do_replay(O.replay);

    double t0 = now();
    Stats st;
    std::vector<uint64_t> hot;
    if(O.calib) {
        phase(true, hot, t0 + O.seconds, O.calib, st);
        std::set<uint64_t> s;
        for(int k = 0; k < O.workers; ++k) {
            FILE* f = fopen((g_base + "/sites." + std::to_string(k)).c_str(), "r");
            unsigned long long x;
            while(f && fscanf(f, "%llx", &x) == 1) s.insert(x);
            if(f) fclose(f);
        }
        hot.assign(s.begin(), s.end());
    }
    if(!g_stop->stop) phase(false, hot, t0 + O.seconds, O.runs, st);
    double wall = now() - t0;

    int rc = 0;
    std::string cls, msg;
    uint64_t vi = ~0ull;
    std::vector<uint64_t> viols;
    DIR* d = opendir(g_base.c_str());
    while(struct dirent* e = d ? readdir(d) : nullptr)
        if(!strncmp(e->d_name, "viol.", 5)) viols.push_back(strtoull(e->d_name + 5, nullptr, 10));
    if(d) closedir(d);
    std::sort(viols.begin(), viols.end());
    if(g_stop->internal) {
        rc = 3;
    } else if(!viols.empty()) {
        if(O.replay_out.empty()) O.replay_out = "replay.txt";
        char self_path[4096];
        ssize_t n = readlink("/proc/self/exe", self_path, sizeof self_path - 1);
        self_path[n > 0 ? n : 0] = 0;
        for(uint64_t v : viols) { // the first one that repeats exactly
            vi = v;
            rc = report(v, cls, msg);
            if(rc != 1) continue;
            // a fresh process must reproduce it
            fflush(nullptr);
            pid_t p = fork();
            if(p == 0) {
                int nul = open("/dev/null", O_RDWR);
                dup2(nul, 1);
                execl(self_path, self_path, "--replay", O.replay_out.c_str(), (char*)nullptr);
                _exit(99);
            }
            int s = 0;
            waitpid(p, &s, 0);
            if(WIFEXITED(s) && WEXITSTATUS(s) == 1) break;
            fprintf(stderr, "the replay file does not reproduce the violation in a fresh process (%x)\n", s);
            rc = 3;
        }
        if(rc == 1) {
            printf("violation: component=%s class=%s run=%llu\n%s\n", info.component, cls.c_str(),
                   (unsigned long long)vi, msg.c_str());
            printf("VIOLATION property=%s replay=%s\n", info.property, O.replay_out.c_str());
        }
    }
    for(auto& k : st.known) printf("KNOWN-FINDING: property=%s %s\n", info.property, k.first.c_str());
    write_raw(st, wall, hot.size(), rc == 1 ? 1 : 0);
    if(rc == 0)
        printf("%s/%s: %llu runs, %zu distinct non-trivial executions, %llu switches, %zu conflict sites, %.1f s\n", info.property,
               info.component, (unsigned long long)st.runs, st.hashes.size(), (unsigned long long)st.switches,
               hot.size(), wall);
    fflush(stdout);
    return rc;
}
