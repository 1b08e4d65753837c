// Shared by the harnesses of the file functions in src/hubbard/include/checkpoint.hpp
#ifndef VERIF_FILES_HPP
#define VERIF_FILES_HPP
#include "prog.hpp"
#include <sys/mman.h>

#include "include/application.hpp"
#include "include/checkpoint.hpp"

namespace h
{
    template <typename T>
    struct SharedArray { // written by a simulated process, read by the scenario after it has died
        T* p;
        size_t n;
        explicit SharedArray(size_t n_)
            : p(static_cast<T*>(mmap(nullptr, n_ * sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0))), n(n_)
        {
        }
        SharedArray(const SharedArray&) = delete;
        ~SharedArray() { munmap(p, n * sizeof(T)); }
        T& operator[](size_t i) { return p[i]; }
    };
    // a fault plan of one kind; operations are counted from the start of the process
    enum PlanKind { PL_NONE, PL_BENIGN, PL_HARD, PL_CRASH };
    inline std::string draw_plan_kind(std::vector<sim::IoFault>& plan, int kind, const uint64_t* ops)
    {
        if(kind == PL_NONE) return "";
        if(kind != PL_CRASH) return draw_plan(plan, ops, kind == PL_HARD);
        draw_benign(plan, ops, 2, false);
        static const int cls[] = {sim::IO_WRITE, sim::IO_WRITE, sim::IO_OPEN, sim::IO_CLOSE, sim::IO_RENAME, sim::IO_LOG, sim::IO_READ};
        const int op           = cls[sim::draw(0, 6)];
        if(ops[op]) {
            const auto at   = uint64_t(sim::draw(1, int64_t(ops[op])));
            const bool torn = op == sim::IO_WRITE && sim::chance(60);
            plan.push_back({op, at, torn ? sim::A_TORN : sim::A_CRASH, sim::draw(0, 999)});
        }
        std::string d;
        for(auto& f : plan) d += describe(f);
        return d;
    }
    inline bool hard_fault(const sim::ProcResult& r)
    {
        return r.fired[sim::F_OPEN_FAIL] || r.fired[sim::F_WRITE_ERR] || r.fired[sim::F_WRITE_NOSPC] || r.fired[sim::F_READ_ERR]
               || r.fired[sim::F_CLOSE_FAIL] || r.fired[sim::F_RENAME_FAIL] || r.fired[sim::F_BADALLOC];
    }
} // namespace h
#endif
