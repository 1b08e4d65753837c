// C18: the programs and the platform description in odd environments
#include "prog.hpp"
#include <ieompp/platform.hpp>

using namespace h;

const sim::CheckInfo sim::info = {
    "C18", "environment",
    "one run: a time-evolution program with drawn parameters runs in an ordinary and then in up to three odd environments "
    "(user name unset, empty, long or odd; host name short, exactly filling, longer than the buffer, empty or failing; "
    "clocks jumping; locale settings; thread settings, also invalid ones); also --version and the platform description itself",
    "programs real_1d_rk4, _coefficients, _jump, real_1d_kinetic_rk4, _coefficients, real_2d_rk4_jump, Platform, ApplicationTimer, logging",
    "environment, host name, clocks, OpenMP runtime, heap, files (simulated); Blaze types and spdlog (stand-ins)"};

void sim::zygote() {}

namespace
{
    std::string draw_env(sim::ProcSpec& s, std::string* user)
    {
        static std::string long_name(5000, 'u');
        static const char* const users[] = {"someone", "", nullptr, long_name.c_str(), "a b", "{} {0} %n%s", "j\xc3\xb6rg", "\x01\xff"};
        static const char* const locales[] = {nullptr, "C", "xx_YY.bogus", "de_DE.UTF-8", ""};
        const int u = int(sim::draw(0, 7)), l = int(sim::draw(0, 4));
        s.env.push_back({"LOGNAME", users[u]});
        if(sim::chance(30)) s.env.push_back({"HOME", nullptr});
        if(l) {
            s.env.push_back({"LC_ALL", locales[l]});
            s.env.push_back({"LANG", locales[l]});
        }
        s.hostname_mode = int(sim::draw(0, 5));
        s.clock_mode    = int(sim::draw(0, 4));
        s.max_threads   = draw_threads();
        // the variables behind the thread settings
        static thread_local std::string threads;
        threads = std::to_string(s.max_threads);
        if(sim::chance(30)) threads += ",4,1";
        static const char* const invalid[] = {"", " ", "0", "many", "-3", "99999999999999999999", "2,,2"}; // ignored by the runtime
        if(sim::chance(15)) threads = invalid[sim::draw(0, 6)];
        if(sim::chance(80)) s.env.push_back({"OMP_NUM_THREADS", threads.c_str()});
        static const char* const others[][2] = {{"OMP_SCHEDULE", "dynamic,3"}, {"OMP_SCHEDULE", "guided"}, {"OMP_DYNAMIC", "true"},
                                                {"OMP_NESTED", "true"}, {"OMP_THREAD_LIMIT", "3"}, {"OMP_PROC_BIND", "close"},
                                                {"OMP_PLACES", "cores"}, {"USER", "other"}, {"USER", nullptr}, {"HOSTNAME", "x"},
                                                {"TZ", "Pacific/Auckland"}, {"TMPDIR", "/nowhere"}, {"HOME", ""}, {"PWD", nullptr},
                                                {"PATH", nullptr}, {"COLUMNS", "1"}, {"TERM", nullptr}};
        std::string more;
        for(int k = int(sim::draw(0, 3)); k > 0; --k) {
            const int o = int(sim::draw(0, 16));
            s.env.push_back({others[o][0], others[o][1]});
            more += std::string(" ") + others[o][0] + "=" + (others[o][1] ? others[o][1] : "(unset)");
        }
        if(user) *user = users[u] ? users[u] : "";
        char b[400];
        snprintf(b, sizeof b, " user=%d locale=%d host=%d clock=%d threads=%d%s", u, l, s.hostname_mode, s.clock_mode, s.max_threads, ("(" + threads + ")" + more).c_str());
        return b;
    }
    void apply_locale(const sim::ProcSpec& s)
    {
        for(auto& e : s.env)
            if(e.value && e.name[0] == 'L') ::setenv(e.name, e.value, 1);
    }
    // header lines that describe neither user, host nor threads must be the same
    void check_header(const std::string& what, const std::string& got, const std::string& want)
    {
        auto keys = [](const std::string& t) {
            std::vector<std::string> r;
            for(size_t p = 0; p < t.size();) {
                const size_t e = t.find('\n', p);
                const auto l   = t.substr(p, e - p);
                p              = e + 1;
                if(l.find("compiled by") == std::string::npos && l.find("max threads") == std::string::npos)
                    r.push_back(l);
                else
                    r.push_back(l.substr(0, l.find(':')));
            }
            return r;
        };
        if(got.find('\0') != std::string::npos) sim::fail("terminated", "%s: the header holds bytes of value 0", what.c_str());
        if(keys(got) != keys(want)) sim::fail("header", "%s: header differs:\n%s", what.c_str(), got.substr(0, 600).c_str());
    }
} // namespace

void sim::scenario()
{
    if(sim::chance(15)) { // the description itself
        sim::ProcSpec s;
        std::string user;
        const auto what = "platform:" + draw_env(s, &user);
        sim::note("%s", what.c_str());
        const auto r = sim::run_process(s, [&] {
            for(int i = 0; i < 2; ++i) {
                const auto host = ieompp::Platform::host();
                const auto name = ieompp::Platform::user();
                sim::Quiet q;
                const char ch = s.hostname_mode == 0 ? 's' : s.hostname_mode == 1 ? 'h' : s.hostname_mode == 2 ? 'H' : 0;
                if(s.hostname_mode == 0 && host != "simhost") return 10;
                if((s.hostname_mode == 1 || s.hostname_mode == 2)
                   && (host.find_first_not_of(ch) != std::string::npos || host.size() > 255))
                    return 11;
                if(s.hostname_mode == 4 && !host.empty()) return 12;
                if(s.hostname_mode == 5 && (host.size() > 64 || host.find_first_not_of('m') != std::string::npos)) return 17;
                if(host.size() > 255) return 13;
                if(!user.empty() && name != user) return 14;
                if(name.size() > 6000) return 15;
            }
            ieompp::Platform::boost();
            ieompp::Platform::architecture();
            ieompp::Platform::operating_system();
            ieompp::Platform::compiler();
            ieompp::Platform::cpp_library();
            if(ieompp::Platform::max_threads() != std::to_string(s.max_threads)) return 16;
            return 0;
        });
        if(r.hung || !r.exited || r.exit_status != 0) sim::fail("platform", "%s: %s", what.c_str(), describe(r).c_str());
        return;
    }
    auto c               = draw_case(sim::thorough() ? 12 : 6, sim::thorough() ? 160 : 80);
    const auto rows      = reference_rows(c);
    const auto args      = command_line(c);
    const auto file      = std::string(c.info().file) + ".txt";
    const auto what_base = c.info().file + (" " + join(args));
    sim::ProcSpec plain;
    plain.max_threads = draw_threads();
    const auto dry    = run_program(c.info().main, c.info().file, args, plain);
    if(!dry.exited || dry.exit_status != 0) sim::fail("exit", "%s: %s", what_base.c_str(), describe(dry).c_str());
    const auto full = sim::slurp(file);
    check_rows("rows", what_base, full, rows, "ordinary environment");
    const int passes = int(sim::draw(1, 3));
    for(int k = 0; k < passes; ++k) {
        sim::ProcSpec s;
        const auto env = draw_env(s, nullptr);
        sim::note("%s%s", what_base.c_str(), env.c_str());
        if(sim::chance(15)) {
            const auto what = c.info().file + (" --version" + env);
            const auto r    = run_program([&](int ac, char** av) { apply_locale(s); return c.info().main(ac, av); }, c.info().file, {"--version"}, s);
            if(r.hung || !r.exited || r.exit_status != 1) sim::fail("version", "%s: %s", what.c_str(), describe(r).c_str());
            if(r.out.find('\0') != std::string::npos || r.out.empty() || r.out.back() != '\n')
                sim::fail("terminated", "%s: not properly terminated text", what.c_str());
            continue;
        }
        const auto what = what_base + env;
        ::unlink(file.c_str());
        const auto r = run_program([&](int ac, char** av) { apply_locale(s); return c.info().main(ac, av); }, c.info().file, args, s);
        if(r.hung || !r.exited || r.exit_status != 0) sim::fail("exit", "%s: %s", what.c_str(), describe(r).c_str());
        const auto text = sim::slurp(file);
        check_rows("rows", what, text, rows, "odd environment");
        check_header(what, header_text(text), header_text(full));
    }
}
