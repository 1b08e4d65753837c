// Stand-in for spdlog (not installed here): the parts ieompp uses.  Like the original, one
// argument is written as it is, several are formatted, and errors while logging are reported on
// stderr and never thrown.
#ifndef VERIF_MINI_SPDLOG_H
#define VERIF_MINI_SPDLOG_H
#include <cstdio>
#include <fcntl.h>
#include <unistd.h>
#include <cstdlib>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <memory>
#include <mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace spdlog
{
    class spdlog_ex : public std::runtime_error
    {
    public:
        using std::runtime_error::runtime_error;
    };
    namespace sinks
    {
        class sink
        {
        public:
            virtual ~sink() {}
            virtual void log(const std::string& line) = 0;
            virtual void flush()                      = 0;
        };
        class stderr_sink_mt : public sink
        {
            std::mutex m_;

        public:
            void log(const std::string& l) override
            {
                std::lock_guard<std::mutex> g(m_);
                fwrite(l.data(), 1, l.size(), stderr);
            }
            void flush() override { fflush(stderr); }
        };
        class simple_file_sink_mt : public sink
        {
            std::mutex m_;
            int f_;

        public:
            explicit simple_file_sink_mt(const std::string& path, bool force_flush = false)
                : f_(::open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666))
            {
                (void)force_flush; // every line goes to the operating system at once
                if(f_ < 0) throw spdlog_ex("Failed opening file " + path + " for writing");
            }
            ~simple_file_sink_mt() override { ::close(f_); }
            void log(const std::string& l) override
            {
                std::lock_guard<std::mutex> g(m_);
                for(size_t o = 0; o < l.size();) {
                    const auto n = ::write(f_, l.data() + o, l.size() - o);
                    if(n < 0) throw spdlog_ex("Failed writing to file");
                    o += size_t(n);
                }
            }
            void flush() override {}
        };
    } // namespace sinks
    using sink_ptr = std::shared_ptr<sinks::sink>;

    class logger
    {
        std::string name_;
        std::vector<sink_ptr> sinks_;

        void write(const std::string& text)
        {
            const std::string line = "[" + name_ + "] [info] " + text + "\n";
            for(auto& s : sinks_) {
                try {
                    s->log(line);
                } catch(const std::exception& e) {
                    fprintf(stderr, "[*** LOG ERROR ***] [%s] %s\n", name_.c_str(), e.what());
                }
            }
        }
        // appends text up to the next replacement field; returns its specification in spec
        static bool next_field(const std::string& f, size_t& p, std::string& out, std::string& spec)
        {
            while(p < f.size()) {
                char c = f[p];
                if(c == '{') {
                    if(p + 1 < f.size() && f[p + 1] == '{') {
                        out += '{';
                        p += 2;
                        continue;
                    }
                    size_t e = f.find('}', p);
                    if(e == std::string::npos) throw std::runtime_error("invalid format string");
                    spec = f.substr(p + 1, e - p - 1);
                    p    = e + 1;
                    return true;
                }
                if(c == '}') {
                    if(p + 1 >= f.size() || f[p + 1] != '}') throw std::runtime_error("invalid format string");
                    out += '}';
                    p += 2;
                    continue;
                }
                out += c;
                ++p;
            }
            return false;
        }
        static void rest(const std::string& f, size_t p, std::string& out)
        {
            std::string spec;
            if(next_field(f, p, out, spec)) throw std::runtime_error("argument index out of range");
        }
        template <typename T, typename... A>
        static void rest(const std::string& f, size_t p, std::string& out, const T& v, const A&... a)
        {
            std::string spec;
            if(!next_field(f, p, out, spec)) return;
            std::ostringstream o;
            if(spec.size() > 2 && spec[0] == ':' && spec[1] == '.')
                o << std::fixed << std::setprecision(atoi(spec.c_str() + 2));
            o << v;
            out += o.str();
            rest(f, p, out, a...);
        }

    public:
        template <typename It>
        logger(const std::string& name, It b, It e) : name_(name), sinks_(b, e)
        {
        }
        template <typename T>
        void info(const T& v)
        {
            std::ostringstream o;
            o << v;
            write(o.str());
        }
        template <typename A, typename... B>
        void info(const char* fmt, const A& a, const B&... b)
        {
            std::string out;
            try {
                rest(fmt, 0, out, a, b...);
            } catch(const std::exception& e) {
                fprintf(stderr, "[*** LOG ERROR ***] [%s] %s\n", name_.c_str(), e.what());
                return;
            }
            write(out);
        }
        template <typename A, typename... B>
        void info(const std::string& fmt, const A& a, const B&... b)
        {
            info(fmt.c_str(), a, b...);
        }
        template <typename... B>
        void debug(const B&...) // below the default level
        {
        }
        template <typename... B>
        void trace(const B&...)
        {
        }
        template <typename... B>
        void warn(const B&... b)
        {
            info(b...);
        }
        template <typename... B>
        void error(const B&... b)
        {
            info(b...);
        }
        template <typename... B>
        void critical(const B&... b)
        {
            info(b...);
        }
        void flush()
        {
            for(auto& s : sinks_) s->flush();
        }
        const std::string& name() const { return name_; }
    };
} // namespace spdlog
#endif
