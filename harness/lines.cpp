// C15: reading data lines from a faulty source
#include "common.hpp"
#include "prog.hpp"
#include <algorithm>
#include <cstring>
#include <ieompp/io/line.hpp>
#include <fstream>
#include <istream>
#include <memory>
#include <streambuf>

using namespace h;
using namespace ieompp;

const sim::CheckInfo sim::info = {
    "C15", "lines",
    "one run: a text of drawn lines (data, comments, blanks, CRLF, bytes of every value, very long ones, with or without a "
    "last newline) is read line by line from a source that hands it out in drawn pieces and ends or fails at a drawn byte, or "
    "from a file with short, interrupted and failing reads; the stream is sometimes unusable from the start or set to throw, "
    "several streams are read in turns, and sources grow after they ended",
    "io/line.hpp with std::istream",
    "the source behind the stream"};

void sim::zygote() {}

namespace
{
    struct Source : std::streambuf { // hands out pieces, then ends or throws
        std::string text;
        size_t pos = 0, fail_at;
        int mode; // 0 whole, 1 single bytes, 2 drawn sizes
        sim::Rng rng;
        uint64_t calls = 0;
        int told = 0; // what it tells about data to come: 0 nothing, 1 everything, 2 that there is none
        Source(const std::string& t, size_t f, int m, uint64_t seed) : text(t), fail_at(f), mode(m), rng(seed) {}
        std::streamsize showmanyc() override { return told == 0 ? 0 : told == 1 && pos < text.size() ? std::streamsize(text.size() - pos) : -1; }
        int_type underflow() override
        {
            sim::Quiet q;
            if(++calls > 4 * text.size() + 2000) sim::fail("hang", "the source was read %llu times", (unsigned long long)calls);
            if(pos >= fail_at) {
                sim::fault_fired(sim::F_STREAM_ERR);
                throw std::runtime_error("source failed");
            }
            if(pos >= text.size()) {
                sim::fault_fired(sim::F_STREAM_EOF);
                setg(nullptr, nullptr, nullptr);
                return traits_type::eof();
            }
            size_t n = mode == 0 ? text.size() : mode == 1 ? 1 : 1 + rng.below(rng.coin(0.5) ? 4 : 64);
            n        = std::min({n, text.size() - pos, fail_at - pos});
            if(n < text.size()) sim::fault_fired(sim::F_STREAM_CHUNK);
            setg(&text[pos], &text[pos], &text[pos] + n);
            pos += n;
            return traits_type::to_int_type(*gptr());
        }
    };
    std::string draw_line()
    {
        static const char* const samples[] = {"",        "0\t0.5",     "# comment", " ",       "\t # c",   "1.5\t-2e-3\t7",
                                              "  4 5",   "text # not", "#",         " \t\v\f", "1\t2\r",   "#crlf\r",
                                              "\r",      "##",         "a",         "\xc3\xa4\xff", "# \xff\x80", " \xc2\xa0"};
        const int k = int(sim::draw(0, 22));
        if(k < 18) return samples[k];
        sim::Rng r(uint64_t(sim::draw(0, 1 << 20)));
        std::string s;
        if(k == 22) { // long
            static const char* const start[] = {"#", " ", "7", "\t#"};
            s = start[r.below(4)];
            s += std::string(r.coin(0.3) ? 200000 + r.below(200000) : r.below(5000), r.coin(0.5) ? ' ' : 'x');
            return s;
        }
        for(size_t n = r.below(12); n; --n) {
            static const char few[] = " \t#\r1a.\0\v";
            s += k == 18 ? char(r.below(256)) : few[r.below(9)];
        }
        for(auto& ch : s)
            if(ch == '\n') ch = '\r';
        return s;
    }
    bool skippable(const std::string& l)
    {
        for(char ch : l) {
            if(ch == '#') return true;
            if(std::strchr(" \t\v\f\r\n", ch) == nullptr || ch == 0) return false;
        }
        return true;
    }

    struct Reader {
        std::vector<std::string> lines, want;
        std::string text;
        bool fails, source_error = false, grows;
        size_t fail_at;
        int state; // 9: unusable from the start, 8: throws when bad, 7: throws at every failure
        std::unique_ptr<Source> src;
        std::ifstream file;
        std::unique_ptr<std::istream> own;
        std::istream* strm;
        size_t i = 0, ended = 0;

        void perfect(size_t from, size_t end)
        { // what a perfect reader sees
            for(size_t p = from; p < end;) {
                const auto e = text.find('\n', p);
                if(e == std::string::npos || e >= end) {
                    if(!fails) want.push_back(text.substr(p, end - p)); // else the line is never finished
                    break;
                }
                want.push_back(text.substr(p, e - p));
                p = e + 1;
            }
            want.erase(std::remove_if(want.begin(), want.end(), skippable), want.end());
        }
        void draw_text()
        {
            const size_t old = lines.size();
            lines.resize(old + size_t(sim::draw(0, 12)));
            for(size_t k = old; k < lines.size(); ++k) lines[k] = draw_line();
            if(sim::chance(3)) { // many lines of the same kind, or of two kinds
                const int n  = int(sim::draw(100, sim::chance(20) ? 300000 : 3000));
                const auto a = draw_line(), b = draw_line();
                for(int k = 0; k < n; ++k) lines.push_back(k % 50 == 49 ? b.substr(0, 20) : a.substr(0, 20));
            }
            for(size_t k = old; k < lines.size(); ++k) text += lines[k] + (k + 1 < lines.size() ? "\n" : "");
        }
        Reader()
        {
            draw_text();
            grows = sim::chance(15);
            if(!lines.empty() && (grows || sim::chance(60))) text += '\n';
            fails   = !grows && sim::chance(35);
            fail_at = fails ? size_t(sim::draw(0, int64_t(text.size()))) : ~size_t(0);
            state   = int(sim::draw(0, 9));
            if(state == 9 || state == 7) grows = false;
            src.reset(new Source(text, fail_at, int(sim::draw(0, 2)), uint64_t(sim::draw(0, 1 << 20))));
            src->told = int(sim::draw(0, 1));
            own.reset(new std::istream(src.get()));
            strm = own.get();
            if(state == 9) {
                switch(sim::draw(0, 5)) {
                    case 0: strm->setstate(std::ios::failbit); break;
                    case 1: strm->setstate(std::ios::badbit); break;
                    case 2: strm->setstate(std::ios::eofbit); break;
                    case 3: strm = &file; break; // never opened
                    case 4: // does not exist
                        file.open("no/such/file");
                        strm = &file;
                        break;
                    case 5: // a directory, or nothing behind it
                        if(sim::chance(50)) {
                            file.open(".");
                            strm = &file;
                        } else {
                            own.reset(new std::istream(nullptr));
                            strm = own.get();
                        }
                        break;
                }
            }
            if(state == 8) strm->exceptions(std::ios::badbit);
            if(state == 7) strm->exceptions(std::ios::badbit | std::ios::failbit);
            sim::note("%zu lines, %zu bytes, fails at %lld, mode %d, state %d%s", lines.size(), text.size(),
                      fails ? (long long)fail_at : -1ll, src->mode, state, grows ? ", grows" : "");
            if(state != 9) {
                perfect(0, std::min(fail_at, text.size()));
                source_error = fails;
            }
        }
        bool done() const { return ended >= 2; } // two calls after the end
        void call()
        {
            std::string got;
            bool thrown = false;
            try {
                got = io::next_line(*strm);
            } catch(const std::exception& e) {
                thrown = true;
                if(!(state == 7 && i >= want.size()) && (state != 8 || !source_error)) sim::fail("exception", "%s", e.what());
            }
            if(i < want.size()) {
                if(thrown) sim::fail("lost", "line %zu of %zu: exception instead", i, want.size());
                if(got != want[i])
                    sim::fail("line", "line %zu of %zu is \"%.60s\" (%zu bytes) instead of \"%.60s\" (%zu bytes)", i, want.size(),
                              got.c_str(), got.size(), want[i].c_str(), want[i].size());
                if(strm->fail()) sim::fail("state", "line %zu of %zu was read, but the stream reports failure", i, want.size());
                ++i;
                return;
            }
            if(!thrown && !got.empty()) sim::fail("extra", "\"%.60s\" after %zu lines", got.c_str(), want.size());
            if(!strm->fail()) sim::fail("state", "end or failure of the source is not reported by the stream");
            if(source_error && !strm->bad()) sim::fail("state", "the source failed, but the stream is not bad");
            if(!source_error && state != 9 && !strm->eof()) sim::fail("state", "end of file is not reported by the stream");
            ++i;
            if(grows) { // more is written to the source
                grows = false;
                sim::probe("grown source");
                const size_t from = text.size(), at = src->pos;
                sim::step_budget(4000000000ull);
                draw_text();
                sim::step_budget(60000000 + 1500 * text.size());
                src->text = text;
                src->pos  = at;
                want.clear();
                i = 0;
                perfect(from, text.size());
                strm->clear();
                return;
            }
            ++ended;
        }
    };
} // namespace

// the same from a file, read through the simulated system calls
static void from_file()
{
    std::vector<std::string> lines(size_t(sim::draw(0, 12)));
    for(auto& l : lines) l = draw_line();
    std::string text;
    for(size_t i = 0; i < lines.size(); ++i) text += lines[i] + (i + 1 < lines.size() ? "\n" : "");
    if(!lines.empty() && sim::chance(60)) text += '\n';
    std::vector<std::string> want = lines;
    if(!want.empty() && want.back().empty() && (text.empty() || text.back() != '\n')) want.pop_back();
    want.erase(std::remove_if(want.begin(), want.end(), skippable), want.end());
    sim::spew("data.txt", text);
    sim::ProcSpec spec;
    bool error = false;
    if(sim::chance(20)) {
        spec.alloc_fail_at = uint64_t(sim::draw(1, 30));
        if(sim::chance(30)) spec.alloc_fail_count = ~uint64_t(0) >> 1;
    } else if(sim::chance(30)) {
        error = true;
        spec.io.push_back({sim::IO_READ, uint64_t(sim::draw(1, 3)), sim::chance(50) ? sim::A_ERR : sim::A_ERR_FOREVER, EIO});
    } else if(sim::chance(70)) {
        const uint64_t ops[sim::IO_NOPS] = {1, 0, 2 + text.size() / 4000, 1, 0, 5};
        draw_benign(spec.io, ops, 4);
    }
    sim::note("file of %zu lines, %zu bytes", lines.size(), text.size());
    const auto read = [&]() {
        std::ifstream strm("data.txt");
        if(!strm) return 2;
        for(size_t i = 0;; ++i) {
            const auto got = io::next_line(strm);
            if(!strm) return strm.bad() ? 3 : i == want.size() && strm.eof() && got.empty() ? 0 : 4;
            if(i >= want.size() || got != want[i]) return 5;
        }
    };
    const auto r = sim::run_process(spec, [&]() {
        try {
            return read();
        } catch(const std::bad_alloc&) {
            return 3;
        }
    });
    if(r.fired[sim::F_BADALLOC]) sim::probe("file: no memory");
    for(auto& f : {sim::F_READ_SHORT, sim::F_READ_ERR, sim::F_EINTR})
        if(r.fired[f]) sim::probe(f == sim::F_READ_ERR ? "file: failing read" : f == sim::F_READ_SHORT ? "file: short read" : "file: EINTR");
    if(r.hung) sim::fail("hang", "file of %zu bytes", text.size());
    if(!r.exited) sim::fail("crash", "%s", describe(r).c_str());
    const bool failed = r.fired[sim::F_READ_ERR] > 0 || r.fired[sim::F_BADALLOC] > 0;
    if(r.fired[sim::F_BADALLOC] && r.exit_status == 0) return; // it was not needed after all
    if(r.exit_status != (failed ? 3 : 0) && !(error && r.exit_status == 2))
        sim::fail("file", "file of %zu bytes: %s%s", text.size(),
                  r.exit_status == 0   ? "a failed read went unnoticed"
                  : r.exit_status == 3 ? "a read error is reported, but none happened"
                  : r.exit_status == 5 ? "wrong line"
                                       : "wrong end",
                  failed ? " (a read failed)" : "");
}

void sim::scenario()
{
    if(sim::chance(15)) return from_file();
    sim::step_budget(4000000000ull); // for the preparations
    std::vector<std::unique_ptr<Reader>> readers;
    for(int n = sim::chance(70) ? 1 : int(sim::draw(2, 3)); n; --n) readers.emplace_back(new Reader);
    size_t bytes = 0;
    for(auto& r : readers) bytes += r->text.size();
    sim::step_budget(60000000 + 500 * bytes);
    const bool turns = readers.size() > 1;
    if(turns) sim::probe("several streams in turns");
    sim::Rng who(turns ? uint64_t(sim::draw(0, 1 << 20)) : 0);
    for(;;) {
        std::vector<Reader*> open;
        for(auto& r : readers)
            if(!r->done()) open.push_back(r.get());
        if(open.empty()) break;
        Reader* r = open[who.below(open.size())];
        for(int k = turns ? 1 : 64; k && !r->done(); --k) r->call();
    }
    for(auto& r : readers)
        for(auto& l : r->lines)
            if(io::is_skippable_line(l) != skippable(l)) sim::fail("skippable", "\"%.60s\" (%zu bytes)", l.c_str(), l.size());
}
