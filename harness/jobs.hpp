// Units of work on the library's public interface, each with an independent reference result.
// Used by C07 (concurrent callers), C08 (history) and C09 (failing allocations).
#ifndef VERIF_JOBS_HPP
#define VERIF_JOBS_HPP
#include "algebra.hpp"
#include <Eigen/Dense>
#include <blaze/math/CompressedMatrix.h>
#include <blaze/math/DynamicMatrix.h>
#include <blaze/math/DynamicVector.h>
#include <functional>
#include <memory>
#include <sstream>
#include "ieompp/types/blaze.hpp"
#include "ieompp/types/eigen/multiply_assign.hpp"
#include "ieompp/types/function_matrix.hpp"
// RK4 asks for the extents of a function matrix in an assertion only
namespace ieompp
{
    namespace types
    {
        template <typename S, typename I>
        struct MatrixDimensionInfo<FunctionMatrix<S, I>> {
            static std::size_t rows(const FunctionMatrix<S, I>& m) { return m.rows(); }
            static std::size_t columns(const FunctionMatrix<S, I>& m) { return m.cols(); }
        };
    } // namespace types
} // namespace ieompp
#include "ieompp/ode/rk4.hpp"
#include "ieompp/models/hubbard/dispersion.hpp"
#include "ieompp/models/hubbard_momentum_space/basis.hpp"
#include "ieompp/models/hubbard_momentum_space/blaze_sparse.hpp"
#include "ieompp/models/hubbard_momentum_space/liouvillian.hpp"
#include "ieompp/models/hubbard_momentum_space/particle_number.hpp"
#include "ieompp/io/line.hpp"
#include "ieompp/models/hubbard_momentum_space/non_vanishing_expectation_values.hpp"
#include "ieompp/models/hubbard_real_space/blaze_sparse.hpp"
#include "ieompp/models/hubbard_real_space/blaze_sparse_no.hpp"
#include "ieompp/models/hubbard_real_space/liouvillian.hpp"
#include "ieompp/models/hubbard_real_space/expectation_value.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump_no.hpp"
#include "ieompp/models/hubbard_real_space/site_occupation.hpp"

namespace h
{
    namespace hr = ieompp::models::hubbard_real_space;
    namespace hm = ieompp::models::hubbard_momentum_space;
    using ieompp::ode::RK4;
    using Momentum3 = hm::Basis3Operator<Monomial>;
    using BVec      = blaze::DynamicVector<Complex, blaze::columnVector>;
    using BMat      = blaze::DynamicMatrix<Complex, blaze::rowMajor>;
    using BSparse   = blaze::CompressedMatrix<Complex, blaze::rowMajor>;
    using FMat      = ieompp::types::FunctionMatrix<Complex, std::size_t>;
    using FMatD     = ieompp::types::FunctionMatrix<double, std::size_t>;
    using EMatD     = ieompp::types::FunctionMatrix<double, Eigen::Index>;
    using EVec      = Eigen::Matrix<double, Eigen::Dynamic, 1>;

    using MLiouvillian = hm::Liouvillian<double, ieompp::models::hubbard::Dispersion<double>>;

    enum JobKind {
        J_RK_DENSE,
        J_RK_SPARSE,
        J_RK_FUNCTION,
        J_MUL_BLAZE,
        J_MUL_BLAZE_REAL,
        J_MUL_EIGEN,
        J_OCC1,
        J_OCC3,
        J_JUMP1,
        J_JUMP3,
        J_JUMP2D,
        J_JUMP_NO1,
        J_JUMP_NO3,
        J_DISP1,
        J_DISP2,
        J_EV1,
        J_EV2,
        J_CONJ1,
        J_CONJ3,
        J_CONJ_MOM,
        J_PN,
        J_MAT1,
        J_MAT3,
        J_MAT_MOM,
        J_ALGEBRA,
        J_MATNO1,
        J_MATNO3,
        J_MAT2D,
        J_NONVAN,
        J_NALLOC, // those that report a failed allocation; reading from a stream sets a flag instead
        J_LINES = J_NALLOC,
        J_NKINDS
    };
    static const char* const job_names[] = {"rk4-dense", "rk4-sparse", "rk4-function", "mul-blaze", "mul-blaze-real",
                                            "mul-eigen", "occ1", "occ3", "jump1", "jump3", "jump2d", "jump-no1",
                                            "jump-no3", "disp1", "disp2", "ev1", "ev2", "conj1", "conj3", "conj-mom",
                                            "particle-number", "matrix1", "matrix3", "matrix-mom", "algebra", "matrix-no1",
                                            "matrix-no3", "matrix-2d", "non-vanishing", "lines"};

    struct Params {
        int kind;
        uint64_t n, m; // extents
        uint64_t seed;
        double dx, dy, k, ky, J, dt, filling;
        int steps;
        bool exploit;
    };
    inline Params draw_params(int kind)
    {
        Params p;
        p.kind = kind;
        p.m    = 1;
        switch(kind) {
            case J_RK_DENSE:
            case J_RK_SPARSE:
            case J_RK_FUNCTION: p.n = sim::draw(1, 7); break;
            case J_MUL_BLAZE:
            case J_MUL_BLAZE_REAL:
            case J_MUL_EIGEN: p.n = sim::draw(1, 12); break;
            case J_OCC1: p.n = sim::draw(1, 8); break;
            case J_OCC3: p.n = sim::draw(1, 2); break;
            case J_JUMP3: p.n = sim::draw(1, 4); break;
            case J_JUMP_NO3: p.n = sim::draw(1, 4); break;
            case J_CONJ3: p.n = sim::draw(1, 4); break;
            case J_CONJ_MOM:
            case J_MAT_MOM: p.n = sim::draw(1, 5); break;
            case J_NONVAN:
            case J_PN: p.n = sim::draw(1, 3); break;
            case J_MATNO3:
            case J_MAT3: p.n = sim::draw(1, 3); break;
            case J_MAT2D:
            case J_JUMP2D:
                p.n = sim::draw(1, 2);
                p.m = sim::draw(1, 2);
                break;
            case J_DISP2:
            case J_EV2:
                p.n = sim::draw(1, 5);
                p.m = sim::draw(1, 5);
                break;
            default: p.n = sim::draw(1, 20);
        }
        p.seed    = uint64_t(sim::draw(0, 1 << 20));
        p.dx      = sim::chance(50) ? 1. : draw_real(0.25, 2.);
        p.dy      = sim::chance(50) ? 1. : draw_real(0.25, 2.);
        p.k       = sim::chance(50) ? PI / 2 : draw_real(-PI, PI);
        p.ky      = sim::chance(50) ? PI / 2 : draw_real(-PI, PI);
        p.dt      = sim::chance(50) ? 0.05 : draw_real(-0.2, 0.2);
        p.filling = sim::chance(50) ? 0.5 : draw_real(0., 1.);
        p.J       = sim::chance(50) ? 1. : draw_real(-2., 2.);
        p.steps   = int(sim::draw(1, 3));
        p.exploit = !sim::chance(40);
        return p;
    }

    // everything a job works on; const once built, so that several jobs may share one
    struct World {
        Params p;
        Table g;
        std::vector<Complex> mat; // dense n x n
        std::vector<Complex> vec; // input vector
        std::unique_ptr<Chain> chain, zone;
        std::unique_ptr<Square> square, zone2;
        std::unique_ptr<Basis1> b1, c1;
        std::unique_ptr<Basis3> b3, c3;
        std::unique_ptr<Momentum3> bm, cm;
        std::unique_ptr<hm::ParticleNumber<double, Momentum3>> pn;
        std::unique_ptr<MLiouvillian> ml;
        std::unique_ptr<AlgebraWorld> alg;
        std::string text;               // lines to read
        std::vector<std::string> lines; // those that carry data
        std::unique_ptr<RK4<double>> rk;
        std::unique_ptr<BMat> dense;
        std::unique_ptr<BSparse> sparse;
        std::unique_ptr<FMat> fm;
        std::unique_ptr<FMatD> fmd;
        std::unique_ptr<EMatD> emd;
        std::unique_ptr<hr::SiteOccupation<double, Basis1>> o1;
        std::unique_ptr<hr::SiteOccupation<double, Basis3>> o3;
        std::unique_ptr<hr::FermiJump1D<double, Basis1>> j1;
        std::unique_ptr<hr::FermiJump1D<double, Basis3>> j3;
        std::unique_ptr<hr::FermiJump2D<double, Basis3>> j2d;
        std::unique_ptr<hr::FermiJump1D_NO<double, Basis1>> no1;
        std::unique_ptr<hr::FermiJump1D_NO<double, Basis3>> no3;
        std::unique_ptr<hr::ExpectationValue1DHalfFilled<double, Chain>> e1;
        std::unique_ptr<hr::ExpectationValue2DHalfFilled<double, Square>> e2;
        std::unique_ptr<ieompp::models::hubbard::Dispersion<double>> d;

        template <typename T, typename... A>
        static std::unique_ptr<T> mk(A&&... a)
        {
            return std::unique_ptr<T>(new T(std::forward<A>(a)...));
        }
        explicit World(const Params& q) : p(q)
        { // inputs, prepared by the harness itself
            sim::Quiet quiet;
            sim::Rng r(p.seed * 31 + 7);
            const uint64_t sites = p.n * p.m;
            g                    = make_table(sites, int(r.below(4)), p.seed);
            switch(p.kind) {
                case J_RK_DENSE:
                case J_RK_SPARSE:
                case J_RK_FUNCTION:
                case J_MUL_BLAZE:
                case J_MUL_BLAZE_REAL:
                case J_MUL_EIGEN:
                    mat.resize(p.n * p.n);
                    for(auto& x : mat)
                        if(p.kind != J_RK_SPARSE || r.coin(0.4)) {
                            const double a = r.sym();
                            x              = Complex(a, r.sym());
                        }
                    vec = make_vec(p.n, V_COMPLEX, p.seed);
                    break;
                case J_PN:
                case J_MAT_MOM: vec = make_vec(sites * sites + 1, V_COMPLEX, p.seed); break;
                case J_ALGEBRA: alg = mk<AlgebraWorld>(int(p.seed % A_NKINDS), p.seed); break;
                case J_NONVAN: break;
                case J_LINES:
                    for(uint64_t i = 0; i < p.n; ++i) {
                        std::string l;
                        switch(r.below(4)) {
                            case 0: l = std::string(r.below(4), ' '); break;
                            case 1: l = std::string(r.below(3), '\t') + "#" + std::string(r.below(60), 'x'); break;
                            default:
                                l = std::to_string(i) + " " + std::string(r.below(60), char('a' + i % 26));
                                lines.push_back(l);
                        }
                        text += l;
                        if(i + 1 < p.n || r.coin(0.5)) text += '\n';
                    }
                    break;
                case J_MATNO3:
                case J_MAT2D:
                case J_MAT3:
                case J_OCC3:
                case J_JUMP3:
                case J_JUMP2D:
                case J_JUMP_NO3: vec = make_vec(sites + sites * sites * sites, int(r.below(V_NKINDS)), p.seed); break;
                default: vec = make_vec(sites, int(r.below(V_NKINDS)), p.seed);
            }
        }
        // build the library's objects
        void build()
        {
            const Table* t = &g;
            auto evf       = [t](const Operator& a, const Operator& b) { return (*t)(a.index1, b.index1); };
            const Complex* mp    = mat.data();
            const std::size_t n  = p.n;
            const double dt      = p.dt;
            switch(p.kind) {
                case J_RK_DENSE:
                    rk    = mk<RK4<double>>(n, dt);
                    dense = mk<BMat>(n, n);
                    for(size_t i = 0; i < n; ++i)
                        for(size_t j = 0; j < n; ++j) (*dense)(i, j) = mp[i * n + j];
                    break;
                case J_RK_SPARSE:
                    rk     = mk<RK4<double>>(n, dt);
                    sparse = mk<BSparse>(n, n);
                    sparse->reserve(n * n);
                    for(size_t i = 0; i < n; ++i) {
                        for(size_t j = 0; j < n; ++j)
                            if(mp[i * n + j] != Complex()) sparse->append(i, j, mp[i * n + j]);
                        sparse->finalize(i);
                    }
                    break;
                case J_RK_FUNCTION:
                    rk = mk<RK4<double>>(n, dt);
                    // fallthrough
                case J_MUL_BLAZE: fm = mk<FMat>(n, n, [mp, n](size_t i, size_t j) { return mp[i * n + j]; }); break;
                case J_MUL_BLAZE_REAL:
                    fmd = mk<FMatD>(n, n, [mp, n](size_t i, size_t j) { return mp[i * n + j].real(); });
                    break;
                case J_MUL_EIGEN:
                    emd = mk<EMatD>(n, n, [mp, n](Eigen::Index i, Eigen::Index j) { return mp[i * n + j].real(); });
                    break;
                case J_OCC1:
                    chain = mk<Chain>(p.n, 1.);
                    b1    = mk<Basis1>(*chain);
                    c1    = mk<Basis1>(b1->get_conjugate());
                    o1.reset(new hr::SiteOccupation<double, Basis1>{evf, std::cref(*b1), std::cref(*c1)});
                    break;
                case J_OCC3:
                    chain = mk<Chain>(p.n, 1.);
                    b3    = mk<Basis3>(*chain);
                    c3    = mk<Basis3>(b3->get_conjugate());
                    o3.reset(new hr::SiteOccupation<double, Basis3>{evf, std::cref(*b3), std::cref(*c3)});
                    o3->exploit_inversion_symmetry = p.exploit;
                    break;
                case J_JUMP1:
                    chain = mk<Chain>(p.n, p.dx);
                    b1    = mk<Basis1>(*chain);
                    j1    = mk<hr::FermiJump1D<double, Basis1>>(*chain, evf, p.k);
                    break;
                case J_JUMP3:
                    chain = mk<Chain>(p.n, p.dx);
                    b3    = mk<Basis3>(*chain);
                    j3    = mk<hr::FermiJump1D<double, Basis3>>(*b3, *chain, evf, p.k);
                    break;
                case J_JUMP2D:
                    square = mk<Square>(p.n, p.m, p.dx, p.dy);
                    b3     = mk<Basis3>(*square);
                    j2d    = mk<hr::FermiJump2D<double, Basis3>>(*b3, *square, evf, Square::Vector{p.k, p.ky});
                    break;
                case J_JUMP_NO1:
                    chain = mk<Chain>(p.n, p.dx);
                    no1   = mk<hr::FermiJump1D_NO<double, Basis1>>(*chain, evf);
                    break;
                case J_JUMP_NO3:
                    chain = mk<Chain>(p.n, p.dx);
                    no3   = mk<hr::FermiJump1D_NO<double, Basis3>>(*chain, evf);
                    break;
                case J_DISP1:
                    zone  = mk<Chain>(p.n);
                    chain = mk<Chain>(p.n, p.dx);
                    d = mk<ieompp::models::hubbard::Dispersion<double>>(*zone, *chain, p.J);
                    break;
                case J_DISP2:
                    zone2  = mk<Square>(p.n, p.m);
                    square = mk<Square>(p.n, p.m, p.dx, p.dy);
                    d = mk<ieompp::models::hubbard::Dispersion<double>>(*zone2, *square, p.J);
                    break;
                case J_EV1:
                    chain = mk<Chain>(p.n, p.dx);
                    e1    = mk<hr::ExpectationValue1DHalfFilled<double, Chain>>(*chain, p.filling, p.k);
                    break;
                case J_EV2:
                    square = mk<Square>(p.n, p.m, p.dx, p.dy);
                    e2     = mk<hr::ExpectationValue2DHalfFilled<double, Square>>(*square);
                    break;
                case J_CONJ1:
                    chain = mk<Chain>(p.n, 1.);
                    b1    = mk<Basis1>(*chain);
                    break;
                case J_CONJ3:
                    chain = mk<Chain>(p.n, 1.);
                    b3    = mk<Basis3>(*chain);
                    break;
                case J_CONJ_MOM:
                    zone = mk<Chain>(p.n);
                    bm   = mk<Momentum3>(p.seed % p.n, *zone);
                    break;
                case J_PN:
                    zone  = mk<Chain>(p.n);
                    chain = mk<Chain>(p.n, 1.);
                    d     = mk<ieompp::models::hubbard::Dispersion<double>>(*zone, *chain, p.J);
                    bm    = mk<Momentum3>(p.seed % p.n, *zone);
                    cm    = mk<Momentum3>(bm->get_conjugate());
                    pn    = mk<hm::ParticleNumber<double, Momentum3>>(*bm, *cm, *d, fermi_energy());
                    break;
                case J_MATNO1:
                case J_MAT1:
                    chain = mk<Chain>(p.n, 1.);
                    b1    = mk<Basis1>(*chain);
                    break;
                case J_MAT2D:
                    square = mk<Square>(p.n, p.m, p.dx, p.dy);
                    b3     = mk<Basis3>(*square);
                    break;
                case J_NONVAN:
                    zone  = mk<Chain>(p.n);
                    chain = mk<Chain>(p.n, 1.);
                    d     = mk<ieompp::models::hubbard::Dispersion<double>>(*zone, *chain, p.J);
                    bm    = mk<Momentum3>(p.seed % p.n, *zone);
                    cm    = mk<Momentum3>(bm->get_conjugate());
                    break;
                case J_MATNO3:
                case J_MAT3:
                    chain = mk<Chain>(p.n, 1.);
                    b3    = mk<Basis3>(*chain);
                    break;
                case J_MAT_MOM:
                    zone  = mk<Chain>(p.n);
                    chain = mk<Chain>(p.n, 1.);
                    bm    = mk<Momentum3>(p.seed % p.n, *zone);
                    ml.reset(new MLiouvillian(hm::make_liouvillian(*zone, *chain, p.J, p.k)));
                    break;
            }
        }
        // other contents of the same kind for the vector
        std::vector<Complex> other_vec(uint64_t seed) const
        {
            sim::Quiet quiet;
            sim::Rng r(seed);
            if(vec.empty()) return {};
            return make_vec(vec.size(), p.kind <= J_MUL_EIGEN ? int(V_COMPLEX) : int(r.below(V_NKINDS)), seed);
        }
        // new contents, in place
        void refill(uint64_t seed)
        {
            sim::Quiet quiet;
            const auto v = other_vec(seed);
            std::copy(v.begin(), v.end(), vec.begin());
            if(p.kind == J_RK_SPARSE) return;
            sim::Rng r(seed + 1);
            for(auto& x : mat) {
                const double a = r.sym();
                x              = Complex(a, r.sym());
            }
            if(dense)
                for(size_t i = 0; i < p.n; ++i)
                    for(size_t j = 0; j < p.n; ++j) (*dense)(i, j) = mat[i * p.n + j];
        }
        double fermi_energy() const { return 0.1234567 * double(p.seed % 7) - 0.3333; } // never on a level, in practice
        double energy(uint64_t k) const { return -2. * p.J * std::cos(-PI + 2. * PI / double(p.n) * double(k)); }
        bool full(uint64_t k) const { return energy(k) < fermi_energy(); }
        // replace the observables and tables by copies of themselves; the originals go away
        template <typename T>
        static void recopy(std::unique_ptr<T>& u)
        {
            if(u) {
                std::unique_ptr<T> c(new T(*u));
                u.swap(c);
            }
        }
        void copy_objects()
        {
            recopy(rk);
            recopy(fm);
            recopy(fmd);
            recopy(emd);
            recopy(o1);
            recopy(o3);
            recopy(j1);
            recopy(j3);
            recopy(j2d);
            recopy(no1);
            recopy(no3);
            recopy(e1);
            recopy(e2);
            if(!pn && !ml) recopy(d);
            recopy(pn);
            recopy(ml);
        }
    };

    // one evaluation in a world; the result is a list of numbers
    struct Outcome {
        std::vector<double> got;
    };
    inline uint64_t op_code(const Operator& o) { return (o.creator ? 1 : 0) + 2 * o.index1 + 100000 * (o.index2 ? 1 : 0); }
    template <typename Basis>
    inline void put_basis(Outcome& o, const Basis& b)
    {
        o.got.push_back(double(b.size()));
        for(const auto& m : b) {
            o.got.push_back(double(m.size()));
            for(const auto& x : m) o.got.push_back(double(op_code(x)));
        }
    }
    template <typename V>
    inline void put_vec(Outcome& o, const V& v, uint64_t n)
    {
        for(uint64_t i = 0; i < n; ++i) {
            o.got.push_back(v[i].real());
            o.got.push_back(v[i].imag());
        }
    }
    inline void put_product(Outcome& o, const BSparse& M, const std::vector<Complex>& v)
    {
        sim::Quiet q;
        BVec x(v.size());
        for(uint64_t i = 0; i < v.size(); ++i) x[i] = v[i];
        const BVec y = M * x;
        put_vec(o, y, v.size());
    }
    // with the world's own vector or another one
    inline void evaluate(const World& w, Outcome& o, const std::vector<Complex>* other = nullptr)
    {
        const auto& p   = w.p;
        const auto& vec = other ? *other : w.vec;
        o.got.clear();
        switch(p.kind) {
            case J_RK_DENSE:
            case J_RK_SPARSE:
            case J_RK_FUNCTION: {
                BVec u(p.n);
                for(uint64_t i = 0; i < p.n; ++i) u[i] = vec[i];
                for(int s = 0; s < p.steps; ++s) {
                    if(p.kind == J_RK_DENSE) w.rk->step(*w.dense, u);
                    if(p.kind == J_RK_SPARSE) w.rk->step(*w.sparse, u);
                    if(p.kind == J_RK_FUNCTION) w.rk->step(*w.fm, u);
                }
                sim::Quiet q;
                put_vec(o, u, p.n);
                break;
            }
            case J_MUL_BLAZE: {
                BVec u(p.n);
                for(uint64_t i = 0; i < p.n; ++i) u[i] = vec[i];
                for(int s = 0; s < p.steps; ++s) ieompp::types::multiply_assign(*w.fm, u);
                sim::Quiet q;
                put_vec(o, u, p.n);
                break;
            }
            case J_MUL_BLAZE_REAL: {
                blaze::DynamicVector<double, blaze::columnVector> u(p.n);
                for(uint64_t i = 0; i < p.n; ++i) u[i] = vec[i].real();
                for(int s = 0; s < p.steps; ++s) ieompp::types::multiply_assign(*w.fmd, u);
                sim::Quiet q;
                for(uint64_t i = 0; i < p.n; ++i) o.got.push_back(u[i]);
                break;
            }
            case J_MUL_EIGEN: {
                EVec u(p.n);
                for(uint64_t i = 0; i < p.n; ++i) u(i) = vec[i].real();
                for(int s = 0; s < p.steps; ++s) ieompp::types::multiply_assign(*w.emd, u);
                sim::Quiet q;
                for(uint64_t i = 0; i < p.n; ++i) o.got.push_back(u(i));
                break;
            }
            case J_OCC1: o.got.push_back((*w.o1)(vec)); break;
            case J_OCC3: o.got.push_back((*w.o3)(vec)); break;
            case J_JUMP1: o.got.push_back((*w.j1)(*w.b1, vec)); break;
            case J_JUMP3: o.got.push_back((*w.j3)(vec)); break;
            case J_JUMP2D: o.got.push_back((*w.j2d)(vec)); break;
            case J_JUMP_NO1: o.got.push_back((*w.no1)(vec)); break;
            case J_JUMP_NO3: o.got.push_back((*w.no3)(vec)); break;
            case J_DISP1:
            case J_DISP2:
                for(uint64_t i = 0; i < p.n * p.m; ++i) o.got.push_back((*w.d)(i));
                break;
            case J_EV1:
                for(uint64_t i = 0; i < p.n; ++i)
                    for(uint64_t j = 0; j < p.n; ++j) o.got.push_back((*w.e1)(i, j));
                break;
            case J_EV2:
                for(uint64_t i = 0; i < p.n * p.m; ++i)
                    for(uint64_t j = 0; j < p.n * p.m; ++j) o.got.push_back((*w.e2)(i, j));
                break;
            case J_CONJ1: {
                const auto c = w.b1->get_conjugate();
                sim::Quiet q;
                put_basis(o, c);
                put_basis(o, *w.b1);
                break;
            }
            case J_CONJ3: {
                const auto c = w.b3->get_conjugate();
                sim::Quiet q;
                put_basis(o, c);
                put_basis(o, *w.b3);
                break;
            }
            case J_CONJ_MOM: {
                const auto c = w.bm->get_conjugate();
                Momentum3 d(*w.bm);
                d.conjugate();
                sim::Quiet q;
                put_basis(o, c);
                put_basis(o, d);
                put_basis(o, *w.bm);
                break;
            }
            case J_PN: o.got.push_back((*w.pn)(vec)); break;
            case J_MAT1: {
                BSparse M(w.b1->size(), w.b1->size());
                const auto L = hr::make_liouvillian(p.J, p.k);
                hr::init_kinetic_matrix(L, M, *w.b1, *w.chain);
                put_product(o, M, vec);
                break;
            }
            case J_MAT3: {
                BSparse M(w.b3->size(), w.b3->size());
                const auto L = hr::make_liouvillian(p.J, p.k);
                hr::init_matrix(L, M, *w.b3, *w.chain);
                put_product(o, M, vec);
                break;
            }
            case J_MATNO1: {
                BSparse M(w.b1->size(), w.b1->size());
                const auto L = hr::make_liouvillian(p.J, p.k);
                hr::init_kinetic_matrix_no(L, M, *w.b1, *w.chain);
                put_product(o, M, vec);
                break;
            }
            case J_MATNO3: {
                BSparse M(w.b3->size(), w.b3->size());
                const auto L   = hr::make_liouvillian(p.J, p.k);
                const Table* t = &w.g;
                hr::init_matrix_no(L, M, *w.b3, *w.chain, [t](uint64_t a, uint64_t b) { return (*t)(a, b); });
                put_product(o, M, vec);
                break;
            }
            case J_MAT2D: {
                BSparse M(w.b3->size(), w.b3->size());
                const auto L = hr::make_liouvillian(p.J, p.k);
                hr::init_matrix(L, M, *w.b3, *w.square);
                put_product(o, M, vec);
                break;
            }
            case J_NONVAN: {
                hm::NonVanishingExpectationValues<uint64_t, double> list(*w.bm, *w.cm, *w.d, w.fermi_energy());
                if(p.exploit) list.sort();
                sim::Quiet q;
                const uint64_t dim = p.n * p.n + 1;
                o.got.assign(dim * dim, 0.);
                for(const auto& c : list) {
                    if(c.left_index >= dim || c.right_index >= dim) sim::fail("value", "pair (%lu, %lu) out of %lu", c.left_index, c.right_index, dim);
                    o.got[c.left_index * dim + c.right_index] += c.value;
                }
                break;
            }
            case J_LINES: {
                std::istringstream s(w.text);
                for(uint64_t i = 0;; ++i) {
                    const auto line = ieompp::io::next_line(s);
                    if(!s) break;
                    if(i >= w.lines.size() || line != w.lines[i]) {
                        o.got.push_back(-1.);
                        break;
                    }
                    o.got.push_back(double(i));
                    if(i > 1000) break;
                }
                break;
            }
            case J_MAT_MOM: {
                BSparse M(w.bm->size(), w.bm->size());
                hm::init_matrix(*w.ml, M, *w.bm, *w.chain);
                put_product(o, M, vec);
                break;
            }
            case J_ALGEBRA: {
                AlgebraWorld::Result r;
                w.alg->run(r);
                w.alg->result_is_right(r);
                w.alg->inputs_unchanged();
                o.got.push_back(1.);
                break;
            }
        }
    }

    // independent reference of the same list, with the scale of each entry
    struct Wanted {
        std::vector<double> val, scale;
        void put(double v, double s)
        {
            val.push_back(v);
            scale.push_back(s);
        }
    };
    inline void ref_mul(const std::vector<Complex>& m, std::vector<Complex>& x, uint64_t n, bool real)
    {
        std::vector<Complex> y(n);
        for(uint64_t i = 0; i < n; ++i)
            for(uint64_t j = 0; j < n; ++j) y[i] += real ? Complex(m[i * n + j].real() * x[j].real()) : m[i * n + j] * x[j];
        x = y;
    }
    inline void ref_basis(Wanted& w, const std::vector<std::vector<uint64_t>>& b)
    {
        w.put(double(b.size()), 0.);
        for(const auto& m : b) {
            w.put(double(m.size()), 0.);
            for(auto c : m) w.put(double(c), 0.);
        }
    }
    inline std::vector<std::vector<uint64_t>> ref_conj(std::vector<std::vector<uint64_t>> b)
    {
        for(auto& m : b) {
            std::reverse(m.begin(), m.end());
            for(auto& c : m) c ^= 1;
        }
        return b;
    }
    inline Wanted reference(const World& w, const std::vector<Complex>* other = nullptr)
    {
        const auto& p   = w.p;
        const auto& vec = other ? *other : w.vec;
        Wanted r;
        const uint64_t n = p.n, sites = p.n * p.m;
        auto jump = [&](bool correct, double kx, double ky) {
            std::complex<long double> sum(0, 0);
            double scale = 0.;
            for(uint64_t i = 0; i < sites; ++i) {
                std::complex<long double> x(vec[i].real(), vec[i].imag());
                double s = std::abs(vec[i]);
                if(correct)
                    for(uint64_t j = 0; j < sites; ++j)
                        for(uint64_t k = 0; k < sites; ++k) {
                            const double f  = 2. * w.g(j, k) - (j == k ? 1. : 0.);
                            const Complex c = vec[sites + sites * sites * i + sites * j + k];
                            x += std::complex<long double>(f * c.real(), f * c.imag());
                            s += std::fabs(f) * std::abs(c);
                        }
                const double ph = kx * p.dx * double(i / p.m) + ky * p.dy * double(i % p.m);
                sum += x * std::complex<long double>(std::cos(ph), std::sin(ph));
                scale += s;
            }
            r.put(double(std::norm(sum)), scale * scale);
        };
        switch(p.kind) {
            case J_RK_DENSE:
            case J_RK_SPARSE:
            case J_RK_FUNCTION: {
                auto u = vec;
                const double dt = p.dt;
                for(int s = 0; s < p.steps; ++s) {
                    auto f = [&](std::vector<Complex> x) {
                        ref_mul(w.mat, x, n, false);
                        return x;
                    };
                    auto add = [&](const std::vector<Complex>& a, const std::vector<Complex>& b, double c) {
                        auto x = a;
                        for(uint64_t i = 0; i < n; ++i) x[i] += c * b[i];
                        return x;
                    };
                    const auto k1 = f(u), k2 = f(add(u, k1, dt / 2)), k3 = f(add(u, k2, dt / 2)), k4 = f(add(u, k3, dt));
                    for(uint64_t i = 0; i < n; ++i) u[i] += dt / 6 * (k1[i] + 2. * k2[i] + 2. * k3[i] + k4[i]);
                }
                for(auto& x : u) {
                    r.put(x.real(), double(n));
                    r.put(x.imag(), double(n));
                }
                break;
            }
            case J_MUL_BLAZE: {
                auto u = vec;
                for(int s = 0; s < p.steps; ++s) ref_mul(w.mat, u, n, false);
                const double sc = std::pow(2. * double(n), p.steps);
                for(auto& x : u) {
                    r.put(x.real(), sc);
                    r.put(x.imag(), sc);
                }
                break;
            }
            case J_MUL_BLAZE_REAL:
            case J_MUL_EIGEN: {
                auto u = vec;
                for(auto& x : u) x = x.real();
                for(int s = 0; s < p.steps; ++s) ref_mul(w.mat, u, n, true);
                for(auto& x : u) r.put(x.real(), std::pow(2. * double(n), p.steps));
                break;
            }
            case J_OCC1:
            case J_OCC3: {
                double sc;
                const double v = occupation(w.g, n, p.kind == J_OCC3, vec, &sc);
                r.put(v, sc);
                break;
            }
            case J_LINES:
                for(size_t i = 0; i < w.lines.size(); ++i) r.put(double(i), 0.);
                break;
            case J_NONVAN:
            case J_PN: {
                std::complex<double> sum = 0.;
                double sc                = 0.;
                const uint64_t q         = p.seed % n;
                struct El {
                    uint64_t k1, k2, k3;
                };
                auto part = [&](uint64_t i) {
                    const uint64_t a = (i - 1) / n, b = (i - 1) % n;
                    return El{a, b, (a + b + n - q) % n};
                };
                auto one = [&](uint64_t i) { return part(i).k2 == part(i).k3 ? 2. * w.full(part(i).k2) + 1. : 0.; };
                const uint64_t dim = n * n + 1;
                const bool list    = p.kind == J_NONVAN;
                for(uint64_t i = 0; i < dim; ++i)
                    for(uint64_t j = 0; j < dim; ++j) {
                        const uint64_t ki = i ? part(i).k1 : q, kj = j ? part(j).k1 : q;
                        if(ki != kj || !w.full(ki)) {
                            if(list) r.put(0., 1.);
                            continue;
                        }
                        double v = !i && !j ? 1. : !i ? one(j) : !j ? one(i) : one(i) * one(j);
                        if(i && j && part(i).k2 == part(j).k2 && part(i).k3 == part(j).k3)
                            v += 4. * w.full(part(i).k2) * (1. - w.full(part(i).k3));
                        if(list) {
                            r.put(v, 1.);
                            continue;
                        }
                        sum += v * vec[i] * std::conj(vec[j]);
                        sc += v * std::abs(vec[i]) * std::abs(vec[j]);
                    }
                if(!list) r.put(sum.real(), sc);
                break;
            }
            case J_ALGEBRA: r.put(1., 0.); break;
            case J_MATNO1:
            case J_MAT1:
            case J_MAT3: {
                // rows of the matrix: hopping acts on every index, the interaction connects b_i and b_iii
                const auto& v = vec;
                auto at       = [n](uint64_t i, uint64_t j, uint64_t k) { return n + (i * n + j) * n + k; };
                const bool three = p.kind == J_MAT3;
                const uint64_t dim = three ? n + n * n * n : n;
                std::vector<Complex> y(dim);
                for(uint64_t i = 0; i < n; ++i) {
                    y[i] = -p.J * (v[(i + n - 1) % n] + v[(i + 1) % n]);
                    if(!three) continue;
                    y[i] += p.k / 2. * (v[i] + v[at(i, i, i)]);
                    for(uint64_t j = 0; j < n; ++j)
                        for(uint64_t k = 0; k < n; ++k) {
                            Complex s = p.k / 2. * v[at(i, j, k)];
                            for(uint64_t e : {n - 1, uint64_t(1)})
                                s += p.J * (-v[at((i + e) % n, j, k)] - v[at(i, (j + e) % n, k)] + v[at(i, j, (k + e) % n)]);
                            if(i == j && j == k) s += p.k / 2. * v[i];
                            y[at(i, j, k)] = s;
                        }
                }
                for(auto& x : y) {
                    r.put(x.real(), 50.);
                    r.put(x.imag(), 50.);
                }
                break;
            }
            case J_MAT2D:
            case J_MATNO3: {
                const auto& v    = vec;
                const uint64_t N = sites, m = p.m;
                const double J = p.J, U = p.k;
                auto at    = [N](uint64_t i, uint64_t j, uint64_t k) { return N + (i * N + j) * N + k; };
                auto delta = [](uint64_t i, uint64_t j) { return i == j ? 1. : 0.; };
                auto near  = [&](uint64_t i) {
                    const uint64_t x = i / m, y = i % m;
                    std::vector<uint64_t> l{(x + n - 1) % n * m + y, (x + 1) % n * m + y};
                    if(p.kind == J_MAT2D) {
                        l.push_back(x * m + (y + m - 1) % m);
                        l.push_back(x * m + (y + 1) % m);
                    }
                    return l;
                };
                auto g = [&](uint64_t i, uint64_t j) { return w.g(i, j); };
                auto e = [&](uint64_t i, uint64_t j) { return delta(i, j) - w.g(i, j); };
                std::vector<Complex> y(N + N * N * N);
                for(uint64_t i = 0; i < N; ++i) {
                    for(auto x : near(i)) y[i] -= J * v[x];
                    if(p.kind == J_MAT2D)
                        y[i] += U / 2. * (v[i] + v[at(i, i, i)]);
                    else
                        y[i] += U * v[i] + U * g(i, i) * v[at(i, i, i)];
                    for(uint64_t j = 0; j < N; ++j)
                        for(uint64_t k = 0; k < N; ++k) {
                            Complex s;
                            for(auto x : near(i)) s -= J * v[at(x, j, k)];
                            for(auto x : near(j)) s -= J * v[at(i, x, k)];
                            for(auto x : near(k)) s += J * v[at(i, j, x)];
                            if(p.kind == J_MAT2D) {
                                s += U / 2. * v[at(i, j, k)];
                                if(i == j && j == k) s += U / 2. * v[i];
                            } else {
                                s += U * (g(j, i) * e(k, i) * v[i] + e(j, i) * g(j, k) * v[j] - g(k, i) * g(j, k) * v[k]);
                                s += U * (g(i, i) * v[at(i, j, k)] - g(j, i) * v[at(i, i, k)] + e(k, i) * v[at(i, j, i)]);
                                if(j != k) s += U * (g(j, i) * v[at(j, j, k)] - g(k, i) * v[at(k, j, k)]);
                            }
                            y[at(i, j, k)] = s;
                        }
                }
                for(auto& x : y) {
                    r.put(x.real(), 50.);
                    r.put(x.imag(), 50.);
                }
                break;
            }
            case J_MAT_MOM: {
                const auto& v    = vec;
                const uint64_t q = p.seed % n;
                const double u   = p.k / (2. * double(n));
                std::vector<Complex> y(v.size());
                y[0] = (w.energy(q) + p.k / 2.) * v[0];
                for(uint64_t i = 1; i < v.size(); ++i) {
                    const uint64_t a = (i - 1) / n, b = (i - 1) % n, c = (a + b + n - q) % n;
                    y[0] += u * v[i];
                    y[i] = u * v[0] + (w.energy(a) + w.energy(b) - w.energy(c) + p.k / 2.) * v[i];
                }
                for(auto& x : y) {
                    r.put(x.real(), 50.);
                    r.put(x.imag(), 50.);
                }
                break;
            }
            case J_JUMP1: jump(false, p.k, 0.); break;
            case J_JUMP3: jump(true, p.k, 0.); break;
            case J_JUMP2D: jump(true, p.k, p.ky); break;
            case J_JUMP_NO1:
            case J_JUMP_NO3: jump(false, PI / 2, 0.); break;
            case J_DISP1:
                for(uint64_t i = 0; i < n; ++i)
                    r.put(-2. * p.J * std::cos((-PI + 2. * PI / double(n) * double(i)) * p.dx), 10.);
                break;
            case J_DISP2:
                for(uint64_t i = 0; i < sites; ++i)
                    r.put(-2. * p.J
                              * (std::cos((-PI + 2. * PI / double(n) * double(i / p.m)) * p.dx)
                                 + std::cos((-PI + 2. * PI / double(p.m) * double(i % p.m)) * p.dy)),
                          10.);
                break;
            case J_EV1:
                for(uint64_t i = 0; i < n; ++i)
                    for(uint64_t j = 0; j < n; ++j) r.put(ev1d(dist(i, j, n), p.filling, p.k, p.dx), 1. + double(n));
                break;
            case J_EV2:
                for(uint64_t i = 0; i < sites; ++i)
                    for(uint64_t j = 0; j < sites; ++j)
                        r.put(ev2d(dist(i / p.m, j / p.m, n), dist(i % p.m, j % p.m, p.m)), 1.);
                break;
            default: {
                std::vector<std::vector<uint64_t>> b;
                auto code = [](bool c, uint64_t i, bool up) { return uint64_t(c) + 2 * i + 100000 * uint64_t(up); };
                if(p.kind == J_CONJ_MOM) {
                    const uint64_t q = p.seed % n;
                    b.push_back({code(true, q, true)});
                    for(uint64_t i = 0; i < n; ++i)
                        for(uint64_t j = 0; j < n; ++j)
                            b.push_back({code(true, i, true), code(true, j, false), code(false, (i + j + n - q) % n, false)});
                    ref_basis(r, ref_conj(b));
                    ref_basis(r, ref_conj(b));
                } else {
                    for(uint64_t i = 0; i < n; ++i) b.push_back({code(true, i, true)});
                    if(p.kind == J_CONJ3)
                        for(uint64_t i = 0; i < n; ++i)
                            for(uint64_t j = 0; j < n; ++j)
                                for(uint64_t k = 0; k < n; ++k)
                                    b.push_back({code(true, i, true), code(true, j, false), code(false, k, false)});
                    ref_basis(r, ref_conj(b));
                }
                ref_basis(r, b);
            }
        }
        return r;
    }
    inline void compare(const char* cls, const World& w, const Outcome& o, const std::vector<Complex>* other = nullptr)
    {
        sim::Quiet q;
        const auto r = reference(w, other);
        for(double d : o.got) sim::digest(d);
        if(o.got.size() != r.val.size())
            sim::fail(cls, "%s n=%lu m=%lu: %zu results instead of %zu", job_names[w.p.kind], w.p.n, w.p.m, o.got.size(),
                      r.val.size());
        for(size_t i = 0; i < r.val.size(); ++i)
            if(!(std::fabs(o.got[i] - r.val[i]) <= 1e-9 * r.scale[i]))
                sim::fail(cls, "%s n=%lu m=%lu: result %zu is %.17g, want %.17g", job_names[w.p.kind], w.p.n, w.p.m, i,
                          o.got[i], r.val[i]);
    }
} // namespace h
#endif
