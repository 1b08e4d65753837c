// Products, conjugates and commutators of numeric and symbolic terms, checked by their action on occupation-number states.
#ifndef VERIF_ALGEBRA_HPP
#define VERIF_ALGEBRA_HPP
#include "model.hpp"
#include <algorithm>
// kronecker.hpp relies on an unqualified to_string being visible
namespace ieompp
{
    namespace algebra
    {
        using std::to_string;
    }
} // namespace ieompp
#include "ieompp/algebra/commutator.hpp"
#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/term.hpp"
#include "ieompp/symbolic/prefactor.hpp"
#include <sstream>

#include "ieompp/platform.hpp"
#include "ieompp/string.hpp"

namespace h
{
namespace al = ieompp::algebra;
using Symbol   = al::Operator<std::string, bool>;
using SMono    = al::Monomial<Symbol>;
using Pref     = ieompp::symbolic::Prefactor<double>;
using Term     = al::Term<double, Operator>;
using STerm    = al::Term<Pref, Symbol>;
enum Algebra {
    A_MONO_MUL, A_MONO_MUL_ASSIGN, A_MONO_CONJ, A_TERM_MUL, A_TERM_CONJ, A_COMM, A_SCOMM, A_STERM_MUL,
    A_TERM_MUL_ASSIGN, A_STERM_MUL_ASSIGN, A_PREF_MUL, A_PREF_ORDER, A_COPIES, A_SQUARE, A_SORT, A_ANTICOMM, A_CHECKS,
    A_COMPOSE, A_PLATFORM,
    A_NALLOC, // those that report a failed allocation; an output stream sets a flag instead
    A_PRINT = A_NALLOC, A_NKINDS
};
static const char* const algebra_names[] = {"monomial product", "monomial *=", "monomial conjugate", "term product",
                                            "term conjugate", "commutator", "symbolic commutator", "symbolic term product",
                                            "term *=", "symbolic term *=", "prefactor product", "ordering of deltas",
                                            "copies of terms", "squares in place", "sorted terms", "anticommutators",
                                            "spin and particle balance", "composed texts", "description of the platform", "printed terms"};

// operators in the harness' own form, and their action on occupation-number states of 8 modes
struct Op {
    bool creator;
    int idx;
    bool up;
};
using Ops = std::vector<Op>;
struct RefTerm {
    double f;
    Ops ops;
};
inline int apply(const Ops& ops, unsigned& s)
{ // sign, 0: vanishes
    int sign = 1;
    for(size_t i = ops.size(); i--;) {
        const unsigned bit = 1u << (2 * ops[i].idx + ops[i].up);
        if(bool(s & bit) == ops[i].creator) return 0;
        if(__builtin_popcount(s & (bit - 1)) & 1) sign = -sign;
        s ^= bit;
    }
    return sign;
}
using OccState = std::vector<double>;
inline void add(OccState& out, unsigned s, const std::vector<RefTerm>& ts, double f)
{
    for(auto& t : ts) {
        unsigned q   = s;
        const int sg = apply(t.ops, q);
        if(sg) out[q] += f * t.f * sg;
    }
}
inline Ops cat(const Ops& a, const Ops& b)
{
    Ops c = a;
    c.insert(c.end(), b.begin(), b.end());
    return c;
}

inline std::string sym(int i) { return "a-rather-long-index-name-" + std::to_string(i); }
inline Symbol symbol(const Op& o) { return Symbol{o.creator, sym(o.idx), o.up}; }
inline Operator number(const Op& o) { return Operator{o.creator, uint64_t(o.idx), o.up}; }
template <typename C>
inline Ops back(const C& c, const int* values)
{
    Ops r;
    for(auto& o : c) r.push_back(Op{o.creator, values[std::stoi(o.index1.substr(o.index1.rfind('-') + 1))], o.index2});
    return r;
}
template <typename C>
inline Ops back(const C& c)
{
    Ops r;
    for(auto& o : c) r.push_back(Op{o.creator, int(o.index1), o.index2});
    return r;
}
inline bool same(const Ops& a, const Ops& b)
{
    if(a.size() != b.size()) return false;
    for(size_t i = 0; i < a.size(); ++i)
        if(a[i].creator != b[i].creator || a[i].idx != b[i].idx || a[i].up != b[i].up) return false;
    return true;
}
inline Ops dagger(Ops a)
{
    std::reverse(a.begin(), a.end());
    for(auto& o : a) o.creator = !o.creator;
    return a;
}
static const int identity[] = {0, 1, 2, 3};

struct AlgebraWorld {
    int kind;
    Ops a, b;
    double fa, fb;
    SMono ma, mb;
    Term ta, tb;
    STerm sa, sb;
    std::vector<al::Kronecker> more;
    struct Result {
        SMono mr, ms;
        Term tr;
        STerm sr;
        std::vector<Term> cr;
        std::vector<STerm> cs;
        std::vector<int> numbers;
        std::string text;
    };
    std::vector<Ops> unsorted; // operands of sorting
    std::string long_text;

    AlgebraWorld(int k, uint64_t seed) : kind(k)
    {
        sim::Quiet q;
        sim::Rng r(seed * 77 + 5);
        int n = int(r.below(4)), m = int(r.below(4));
        if((kind == A_COMM || kind == A_SCOMM) && n * m % 2) ++n;
        for(int i = 0; i < n; ++i) a.push_back(Op{r.coin(.5), int(r.below(3)), r.coin(.5)});
        for(int i = 0; i < m; ++i) b.push_back(Op{r.coin(.5), int(r.below(3)), r.coin(.5)});
        if(kind == A_PRINT) n = std::max(n, 1);
        while(int(a.size()) < n) a.push_back(Op{r.coin(.5), int(r.below(3)), r.coin(.5)});
        fa = r.sym();
        fb = r.sym();
        if(kind == A_PRINT || kind == A_COMPOSE) fa = double(r.below(17)) - 8.;
        if(kind == A_COMPOSE) long_text = r.coin(.5) ? std::string(r.below(700), 'x') : std::string(r.below(60), 'y');
        fill(ma, mb, ta, tb, sa, sb);
        const int extra = int(r.below(6));
        if(kind == A_SORT || kind == A_CHECKS)
            for(int i = int(r.below(12)); i--;) {
                Ops o;
                for(int j = int(r.below(4)); j--;) o.push_back(Op{r.coin(.5), int(r.below(3)), r.coin(.5)});
                unsorted.push_back(o);
            }
        for(int i = 0; i < extra; ++i) more.push_back(al::make_kronecker(sym(int(r.below(3))), sym(int(r.below(3)))));
    }
    std::vector<al::Kronecker> kroneckers(bool b, int loose) const
    {
        std::vector<al::Kronecker> k{al::make_kronecker(sym(0), sym(1))};
        if(b) k.push_back(al::make_kronecker(sym(1), sym(2)));
        if(loose == 2) k.push_back(al::make_kronecker(sym(2), sym(0)));
        if(loose) k.insert(k.end(), more.begin(), more.end());
        return k;
    }
    // the same deltas, in any order and with their indices in any order
    static bool same_deltas(std::vector<al::Kronecker> x, const std::vector<al::Kronecker>& y)
    {
        if(x.size() != y.size()) return false;
        for(auto& k : y) {
            auto it = std::find(x.begin(), x.end(), k);
            if(it == x.end()) return false;
            x.erase(it);
        }
        return true;
    }
    void fill(SMono& x, SMono& y, Term& tx, Term& ty, STerm& sx, STerm& sy) const
    {
        tx.prefactor = fa;
        ty.prefactor = fb;
        sx.prefactor.value = fa;
        sy.prefactor.value = fb;
        sx.prefactor.kroneckers.push_back(al::make_kronecker(sym(0), sym(1)));
        sy.prefactor.kroneckers.push_back(al::make_kronecker(sym(1), sym(2)));
        for(auto& o : a) {
            x.push_back(symbol(o));
            tx.operators.push_back(number(o));
            sx.operators.push_back(symbol(o));
        }
        for(auto& o : b) {
            y.push_back(symbol(o));
            ty.operators.push_back(number(o));
            sy.operators.push_back(symbol(o));
        }
    }
    // the order of terms: shorter ones first, then creators first, smaller indices first
    static bool before(const Ops& x, const Ops& y)
    {
        if(x.size() != y.size()) return x.size() < y.size();
        for(size_t i = 0; i < x.size(); ++i) {
            if(x[i].creator != y[i].creator) return x[i].creator;
            if(x[i].idx != y[i].idx) return x[i].idx < y[i].idx;
            if(x[i].up != y[i].up) return x[i].up < y[i].up;
        }
        return false;
    }
    // with copies of the inputs where the operation changes its left-hand side
    void run(Result& r) const
    {
        switch(kind) {
            case A_MONO_MUL: r.mr = ma * mb; break;
            case A_MONO_MUL_ASSIGN:
                r.mr = ma;
                r.mr *= mb;
                break;
            case A_MONO_CONJ:
                r.mr = ma.get_conjugate();
                r.ms = ma;
                r.ms.conjugate();
                break;
            case A_TERM_MUL: r.tr = ta * tb; break;
            case A_TERM_CONJ: r.tr = ta.get_conjugate(); break;
            case A_COMM:
                r.cr.clear();
                al::commutate(ta, tb, r.cr);
                break;
            case A_SCOMM:
                r.cs.clear();
                al::commutate(sa, sb, r.cs);
                break;
            case A_STERM_MUL: r.sr = sa * sb; break;
            case A_TERM_MUL_ASSIGN:
                r.tr = ta;
                r.tr *= tb;
                break;
            case A_STERM_MUL_ASSIGN:
                r.sr = sa;
                r.sr *= sb;
                break;
            case A_PREF_MUL:
                r.sr.prefactor = sa.prefactor * sb.prefactor;
                r.sr.prefactor *= al::make_kronecker(sym(2), sym(0));
                r.sr.prefactor *= more;
                r.sr.prefactor *= 3;
                break;
            case A_PREF_ORDER:
                r.sr = sa;
                r.sr.prefactor *= more;
                r.sr.prefactor.order_kroneckers();
                break;
            case A_COPIES:
                r.cs.assign(3, sa);
                r.cs.push_back(sb);
                r.cs.insert(r.cs.begin(), sb);
                break;
            case A_SQUARE:
                r.mr = ma;
                r.mr *= r.mr;
                r.tr = ta;
                r.tr *= r.tr;
                r.sr = sb;
                r.sr *= r.sr;
                break;
            case A_SORT:
                r.cr.clear();
                for(auto& o : unsorted) {
                    Term t{fa, {}};
                    for(auto& x : o) t.operators.push_back(number(x));
                    r.cr.push_back(std::move(t));
                }
                if(more.size() % 2) std::sort(r.cr.begin(), r.cr.end(), al::TermGreater<Term>());
                else std::sort(r.cr.begin(), r.cr.end(), al::TermSmaller<Term>());
                break;
            case A_ANTICOMM:
                r.numbers.clear();
                r.cs.clear();
                for(auto& x : sa.operators)
                    for(auto& y : sb.operators) {
                        r.numbers.push_back(al::anticommutates(x, y));
                        r.cs.push_back(sa);
                        al::anticommutator<STerm>(x, y, r.cs.back().prefactor);
                    }
                for(auto& x : ta.operators)
                    for(auto& y : tb.operators) r.numbers.push_back(al::anticommutates(x, y));
                break;
            case A_CHECKS:
                r.numbers = {al::total_creations(ta), al::total_creations(sb), ma.is_conjugate(mb), ta.have_same_operators(tb),
                             ma.is_conjugate(ma.get_conjugate()), ma == mb, ma != mb};
                break;
            case A_COMPOSE:
                r.text = more.size() % 2 ? ieompp::compose(fa, '.', "size ", more.size(), long_text, -7)
                                         : ieompp::compose(long_text, int(fa), ';', long_text) + ieompp::compose(uint64_t(more.size()));
                break;
            case A_PLATFORM:
                r.text = ieompp::Platform::compiler() + '|' + ieompp::Platform::cpp_library() + '|' + ieompp::Platform::boost() + '|'
                         + ieompp::Platform::architecture() + '|' + ieompp::Platform::operating_system() + '|' + ieompp::Platform::max_threads();
                break;
            case A_PRINT: {
                std::ostringstream os;
                os << ta << '|' << ma << '|' << more.size();
                if(!os) throw std::bad_alloc(); // how a stream reports that an allocation failed
                r.text = os.str();
                break;
            }
        }
    }
    void inputs_unchanged() const
    {
        sim::Quiet q;
        SMono x, y;
        Term tx, ty;
        STerm sx, sy;
        fill(x, y, tx, ty, sx, sy);
        bool ok = x == ma && y == mb;
        ok      = ok && tx.prefactor == ta.prefactor && tx.operators == ta.operators;
        ok      = ok && ty.prefactor == tb.prefactor && ty.operators == tb.operators;
        ok      = ok && sx.operators == sa.operators && sx.prefactor.value == sa.prefactor.value;
        ok      = ok && sx.prefactor.kroneckers == sa.prefactor.kroneckers;
        ok      = ok && sy.operators == sb.operators && sy.prefactor.value == sb.prefactor.value;
        ok      = ok && sy.prefactor.kroneckers == sb.prefactor.kroneckers;
        if(!ok) sim::fail("input", "%s: an input changed", algebra_names[kind]);
    }
    void commutator_is_right(const std::vector<RefTerm>& got, const Ops& x, const Ops& y, double f) const
    {
        for(unsigned s = 0; s < 64; ++s) {
            OccState want(64, 0.), have(64, 0.);
            add(want, s, {RefTerm{f, cat(x, y)}}, 1.);
            add(want, s, {RefTerm{f, cat(y, x)}}, -1.);
            add(have, s, got, 1.);
            for(unsigned t = 0; t < 64; ++t)
                if(!(std::fabs(want[t] - have[t]) <= 1e-12 * (1. + got.size())))
                    sim::fail("result", "%s: matrix element %u,%u is %.17g, want %.17g", algebra_names[kind], t, s, have[t], want[t]);
        }
    }
    void result_is_right(const Result& r) const
    {
        sim::Quiet q;
        const auto &mr = r.mr, &ms = r.ms;
        const auto& tr = r.tr;
        const auto& sr = r.sr;
        const auto& cr = r.cr;
        const auto& cs = r.cs;
        bool ok = true;
        switch(kind) {
            case A_MONO_MUL:
            case A_MONO_MUL_ASSIGN: ok = same(back(mr, identity), cat(a, b)); break;
            case A_MONO_CONJ: ok = same(back(mr, identity), dagger(a)) && same(back(ms, identity), dagger(a)); break;
            case A_TERM_MUL: ok = same(back(tr.operators), cat(a, b)) && tr.prefactor == fa * fb; break;
            case A_TERM_CONJ: ok = same(back(tr.operators), dagger(a)) && tr.prefactor == fa; break;
            case A_STERM_MUL:
                ok = same(back(sr.operators, identity), cat(a, b)) && sr.prefactor.value == fa * fb
                     && sr.prefactor.kroneckers.size() == 2
                     && sr.prefactor.kroneckers[0] == al::make_kronecker(sym(0), sym(1))
                     && sr.prefactor.kroneckers[1] == al::make_kronecker(sym(1), sym(2));
                break;
            case A_TERM_MUL_ASSIGN: ok = same(back(tr.operators), cat(a, b)) && tr.prefactor == fa * fb; break;
            case A_STERM_MUL_ASSIGN:
                ok = same(back(sr.operators, identity), cat(a, b)) && sr.prefactor.value == fa * fb
                     && same_deltas(sr.prefactor.kroneckers, kroneckers(true, 0));
                break;
            case A_PREF_MUL:
                ok = sr.prefactor.value == fa * fb * 3 && same_deltas(sr.prefactor.kroneckers, kroneckers(true, 2));
                break;
            case A_PREF_ORDER:
                ok = sr.prefactor.value == fa && same(back(sr.operators, identity), a)
                     && same_deltas(sr.prefactor.kroneckers, kroneckers(false, 1));
                for(auto& k : sr.prefactor.kroneckers) ok = ok && k.a <= k.b;
                for(size_t i = 1; ok && i < sr.prefactor.kroneckers.size(); ++i)
                    ok = sr.prefactor.kroneckers[i - 1].a <= sr.prefactor.kroneckers[i].a;
                break;
            case A_COPIES:
                ok = cs.size() == 5;
                for(size_t i = 0; ok && i < 5; ++i) {
                    const bool second = i == 0 || i == 4;
                    ok = same(back(cs[i].operators, identity), second ? b : a) && cs[i].prefactor.value == (second ? fb : fa)
                         && cs[i].prefactor.kroneckers.size() == 1
                         && cs[i].prefactor.kroneckers[0] == (second ? al::make_kronecker(sym(1), sym(2)) : al::make_kronecker(sym(0), sym(1)));
                }
                break;
            case A_SQUARE:
                ok = same(back(mr, identity), cat(a, a)) && same(back(tr.operators), cat(a, a)) && tr.prefactor == fa * fa
                     && same(back(sr.operators, identity), cat(b, b)) && sr.prefactor.value == fb * fb;
                ok = ok && same_deltas(sr.prefactor.kroneckers, {al::make_kronecker(sym(1), sym(2)), al::make_kronecker(sym(1), sym(2))});
                break;
            case A_SORT: {
                auto want = unsorted;
                std::sort(want.begin(), want.end(), before);
                if(more.size() % 2) {
                    // the reverse order, except that a longer term comes first and creators come last
                    std::reverse(want.begin(), want.end());
                }
                ok = cr.size() == want.size();
                for(size_t i = 0; ok && i < want.size(); ++i) ok = same(back(cr[i].operators), want[i]) && cr[i].prefactor == fa;
                break;
            }
            case A_ANTICOMM: {
                std::vector<int> want;
                size_t i = 0;
                ok       = cs.size() == a.size() * b.size();
                for(auto& x : a)
                    for(auto& y : b) {
                        want.push_back(x.creator == y.creator || x.up != y.up);
                        auto d = kroneckers(false, 0);
                        if(x.idx != y.idx) d.push_back(al::make_kronecker(sym(x.idx), sym(y.idx)));
                        ok = ok && same_deltas(cs[i].prefactor.kroneckers, d) && cs[i].prefactor.value == fa
                             && same(back(cs[i].operators, identity), a);
                        ++i;
                    }
                for(auto& x : a)
                    for(auto& y : b) want.push_back(x.creator == y.creator || x.up != y.up || x.idx != y.idx);
                ok = ok && r.numbers == want;
                break;
            }
            case A_CHECKS: {
                auto balance = [](const Ops& o) {
                    int n = 0;
                    for(auto& x : o) n += x.creator ? 1 : -1;
                    return n;
                };
                ok = r.numbers == std::vector<int>{balance(a), balance(b), same(dagger(a), b), same(a, b), 1, same(a, b), !same(a, b)};
                break;
            }
            case A_COMPOSE: {
                char f[64];
                snprintf(f, sizeof f, more.size() % 2 ? "%g.size %zu" : "%g;", fa, more.size());
                const auto want = more.size() % 2 ? f + long_text + "-7" : long_text + f + long_text + std::to_string(more.size());
                if(r.text != want) sim::fail("result", "composed %s, want %s", r.text.c_str(), want.c_str());
                break;
            }
            case A_PLATFORM: {
                const std::string v = std::to_string(__GNUC__) + "." + std::to_string(__GNUC_MINOR__) + "." + std::to_string(__GNUC_PATCHLEVEL__);
                const std::string b = std::to_string(BOOST_VERSION / 100000) + "." + std::to_string(BOOST_VERSION / 100 % 1000) + "."
                                      + std::to_string(BOOST_VERSION % 100);
                const std::string want = "gcc " + v + "|libstdc++" + std::to_string(BOOST_LIB_STD_GNU) + "|" + b + "|x86_64|Linux|"
                                         + std::to_string(omp_get_max_threads());
                if(r.text != want) sim::fail("result", "the platform is %s, want %s", r.text.c_str(), want.c_str());
                break;
            }
            case A_PRINT: {
                auto text = [](const Ops& o, bool names) {
                    std::string t;
                    for(auto& x : o)
                        t += std::string(t.empty() ? "" : " ") + (x.creator ? "c^\u2020_{" : "c_{") + (names ? sym(x.idx) : std::to_string(x.idx))
                             + "," + (x.up ? "\u2191}" : "\u2193}");
                    return t;
                };
                char f[32];
                snprintf(f, sizeof f, "%g", fa);
                const auto want = f + std::string(" \u22c5 ") + text(a, false) + "|" + text(a, true) + "|" + std::to_string(more.size());
                if(r.text != want) sim::fail("result", "printed %s, want %s", r.text.c_str(), want.c_str());
                break;
            }
            case A_COMM: {
                std::vector<RefTerm> ts;
                for(auto& t : cr) ts.push_back(RefTerm{t.prefactor, back(t.operators)});
                commutator_is_right(ts, a, b, fa * fb);
                break;
            }
            case A_SCOMM:
                for(int code = 0; code < 27; ++code) { // every assignment of sites to the index names
                    const int v[] = {code % 3, code / 3 % 3, code / 9};
                    auto put = [&](Ops o) {
                        for(auto& x : o) x.idx = v[x.idx];
                        return o;
                    };
                    const double k01 = v[0] == v[1], k12 = v[1] == v[2];
                    std::vector<RefTerm> ts;
                    for(auto& t : cs) {
                        double f = t.prefactor.value;
                        for(auto& k : t.prefactor.kroneckers) {
                            const int i = std::stoi(k.a.substr(k.a.rfind('-') + 1)), j = std::stoi(k.b.substr(k.b.rfind('-') + 1));
                            if(v[i] != v[j]) f = 0.;
                        }
                        if(f != 0.) ts.push_back(RefTerm{f, back(t.operators, v)});
                    }
                    commutator_is_right(ts, put(a), put(b), fa * fb * k01 * k12);
                }
                break;
        }
        if(!ok) sim::fail("result", "%s: wrong result", algebra_names[kind]);
    }
};
} // namespace h
#endif
