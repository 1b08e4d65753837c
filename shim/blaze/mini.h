// Stand-in for the Blaze linear algebra library (not installed here): only what ieompp uses, with
// the semantics documented by Blaze.  Every sparse or dense matrix-vector product is one tick() of
// the simulation.
#ifndef VERIF_MINI_BLAZE_H
#define VERIF_MINI_BLAZE_H
#include "sim.h"

#include <algorithm>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <limits>
#include <numeric>
#include <iostream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace blaze
{
    using std::size_t;
    static constexpr bool rowMajor     = false;
    static constexpr bool columnMajor  = true;
    static constexpr bool columnVector = false;
    static constexpr bool rowVector    = true;
    static constexpr bool defaultTransposeFlag = columnVector;
    static constexpr bool defaultStorageOrder  = rowMajor;

    template <typename T>
    struct Value {
        static constexpr bool scalar = std::is_arithmetic<T>::value;
    };
    template <typename T>
    struct Value<std::complex<T>> {
        static constexpr bool scalar = true;
    };

    // ------------------------------------------------------------------ DynamicVector
    template <typename T, bool TF = defaultTransposeFlag>
    class DynamicVector
    {
        std::vector<T> v_;

    public:
        using ElementType                   = T;
        using This                          = DynamicVector;
        static constexpr bool transposeFlag = TF;
        using Iterator                      = typename std::vector<T>::iterator;
        using ConstIterator                 = typename std::vector<T>::const_iterator;

        DynamicVector() {}
        // elements of built-in types are left uninitialised by Blaze: made visible by a NaN or a big number
        static T junk() { return std::numeric_limits<T>::has_quiet_NaN ? std::numeric_limits<T>::quiet_NaN() : T(-2023406815); }
        template <typename U = T>
        static typename std::enable_if<std::is_arithmetic<U>::value, U>::type fresh() { return junk(); }
        template <typename U = T>
        static typename std::enable_if<!std::is_arithmetic<U>::value, U>::type fresh() { return U(); }
        explicit DynamicVector(size_t n) : v_(n, fresh<>()) {}
        DynamicVector(size_t n, const T& init) : v_(n, init) {}
        DynamicVector(std::initializer_list<T> l) : v_(l) {}
        template <typename U>
        DynamicVector(size_t n, const U* from) : v_(from, from + n) {}
        template <typename U, size_t N>
        explicit DynamicVector(const U (&from)[N]) : v_(from, from + N) {}
        template <typename U, typename = typename std::enable_if<!std::is_same<U, T>::value && std::is_convertible<U, T>::value>::type>
        DynamicVector(const DynamicVector<U, TF>& o) : v_(o.begin(), o.end()) {}

        T& operator[](size_t i)
        {
            assert(i < v_.size());
            return v_[i];
        }
        const T& operator[](size_t i) const
        {
            assert(i < v_.size());
            return v_[i];
        }
        T& operator()(size_t i) { return (*this)[i]; }
        const T& operator()(size_t i) const { return (*this)[i]; }
        T& at(size_t i) { return v_.at(i); }
        const T& at(size_t i) const { return v_.at(i); }
        size_t size() const { return v_.size(); }
        size_t capacity() const { return v_.capacity(); }
        void resize(size_t n, bool preserve = true)
        {
            if(!preserve && n > v_.capacity()) v_.clear();
            v_.resize(n, fresh<>());
        }
        void reserve(size_t n) { v_.reserve(n); }
        void shrinkToFit() { v_.shrink_to_fit(); }
        template <typename S>
        DynamicVector& scale(const S& s)
        {
            return *this *= s;
        }
        void extend(size_t n, bool preserve = true) { resize(v_.size() + n, preserve); }
        void reset() { std::fill(v_.begin(), v_.end(), T()); }
        void clear() { v_.clear(); }
        void swap(DynamicVector& o) noexcept { v_.swap(o.v_); }
        T* data() { return v_.data(); }
        const T* data() const { return v_.data(); }
        Iterator begin() { return v_.begin(); }
        Iterator end() { return v_.end(); }
        ConstIterator begin() const { return v_.begin(); }
        ConstIterator end() const { return v_.end(); }
        ConstIterator cbegin() const { return v_.begin(); }
        ConstIterator cend() const { return v_.end(); }
        size_t nonZeros() const
        {
            size_t n = 0;
            for(const auto& x : v_) n += x != T();
            return n;
        }

        DynamicVector& operator=(const T& s)
        {
            std::fill(v_.begin(), v_.end(), s);
            return *this;
        }
        DynamicVector& operator+=(const DynamicVector& o)
        {
            match(o);
            for(size_t i = 0; i < v_.size(); ++i) v_[i] += o.v_[i];
            return *this;
        }
        DynamicVector& operator-=(const DynamicVector& o)
        {
            match(o);
            for(size_t i = 0; i < v_.size(); ++i) v_[i] -= o.v_[i];
            return *this;
        }
        template <typename S>
        typename std::enable_if<Value<S>::scalar, DynamicVector&>::type operator*=(const S& s)
        {
            for(auto& x : v_) x *= s;
            return *this;
        }
        template <typename S>
        typename std::enable_if<Value<S>::scalar, DynamicVector&>::type operator/=(const S& s)
        {
            for(auto& x : v_) x /= s;
            return *this;
        }
        DynamicVector& operator*=(const DynamicVector& o)
        {
            match(o);
            for(size_t i = 0; i < v_.size(); ++i) v_[i] *= o.v_[i];
            return *this;
        }
        void match(const DynamicVector& o) const
        {
            if(o.size() != size()) throw std::invalid_argument("Vector sizes do not match");
        }
    };
    template <typename T, bool TF>
    DynamicVector<T, TF> operator+(DynamicVector<T, TF> a, const DynamicVector<T, TF>& b)
    {
        a += b;
        return a;
    }
    template <typename T, bool TF>
    DynamicVector<T, TF> operator-(DynamicVector<T, TF> a, const DynamicVector<T, TF>& b)
    {
        a -= b;
        return a;
    }
    template <typename T, bool TF, typename S>
    typename std::enable_if<Value<S>::scalar, DynamicVector<T, TF>>::type operator*(const S& s,
                                                                                    DynamicVector<T, TF> a)
    {
        a *= s;
        return a;
    }
    template <typename T, bool TF, typename S>
    typename std::enable_if<Value<S>::scalar, DynamicVector<T, TF>>::type operator*(DynamicVector<T, TF> a,
                                                                                    const S& s)
    {
        a *= s;
        return a;
    }
    template <typename T, bool TF, typename S>
    typename std::enable_if<Value<S>::scalar, DynamicVector<T, TF>>::type operator/(DynamicVector<T, TF> a,
                                                                                    const S& s)
    {
        a /= s;
        return a;
    }
    template <typename T, bool TF>
    bool operator==(const DynamicVector<T, TF>& a, const DynamicVector<T, TF>& b)
    {
        return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin());
    }
    template <typename T, bool TF>
    bool operator!=(const DynamicVector<T, TF>& a, const DynamicVector<T, TF>& b)
    {
        return !(a == b);
    }
    template <typename T, bool TF>
    std::ostream& operator<<(std::ostream& s, const DynamicVector<T, TF>& v)
    {
        for(const auto& x : v) s << x << '\n';
        return s;
    }
    template <typename T, bool TF>
    void swap(DynamicVector<T, TF>& a, DynamicVector<T, TF>& b) noexcept
    {
        a.swap(b);
    }
    template <typename T, bool TF>
    DynamicVector<T, !TF> trans(const DynamicVector<T, TF>& v)
    {
        DynamicVector<T, !TF> r(v.size());
        for(size_t i = 0; i < v.size(); ++i) r[i] = v[i];
        return r;
    }
    template <typename T>
    T operator*(const DynamicVector<T, rowVector>& a, const DynamicVector<T, columnVector>& b)
    {
        T s = T();
        for(size_t i = 0; i < a.size(); ++i) s += a[i] * b[i];
        return s;
    }

    template <typename T, bool TF>
    DynamicVector<T, TF> operator-(DynamicVector<T, TF> a)
    {
        for(auto& x : a) x = -x;
        return a;
    }
    template <typename T, bool TF>
    DynamicVector<T, TF> operator*(DynamicVector<T, TF> a, const DynamicVector<T, TF>& b)
    {
        a.match(b);
        for(size_t i = 0; i < a.size(); ++i) a[i] *= b[i];
        return a;
    }
    inline double conj_of(double x) { return x; }
    inline float conj_of(float x) { return x; }
    template <typename T>
    std::complex<T> conj_of(const std::complex<T>& x)
    {
        return std::conj(x);
    }
    template <typename T, bool TF>
    DynamicVector<T, TF> conj(DynamicVector<T, TF> v)
    {
        for(auto& x : v) x = conj_of(x);
        return v;
    }
    template <typename T, bool TF>
    DynamicVector<T, !TF> ctrans(const DynamicVector<T, TF>& v)
    {
        return trans(conj(v));
    }
    template <typename T, bool TF, typename F>
    auto map(const DynamicVector<T, TF>& v, F f) -> DynamicVector<typename std::decay<decltype(f(v[0]))>::type, TF>
    {
        DynamicVector<typename std::decay<decltype(f(v[0]))>::type, TF> r(v.size());
        for(size_t i = 0; i < v.size(); ++i) r[i] = f(v[i]);
        return r;
    }
    template <typename T, bool TF, typename F>
    auto forEach(const DynamicVector<T, TF>& v, F f) -> decltype(map(v, f))
    {
        return map(v, f);
    }
    template <typename T, bool TF>
    auto real(const DynamicVector<T, TF>& v) -> DynamicVector<decltype(std::real(v[0])), TF>
    {
        return map(v, [](const T& x) { return std::real(x); });
    }
    template <typename T, bool TF>
    auto imag(const DynamicVector<T, TF>& v) -> DynamicVector<decltype(std::imag(v[0])), TF>
    {
        return map(v, [](const T& x) { return std::imag(x); });
    }
    template <typename T, bool TF>
    auto abs(const DynamicVector<T, TF>& v) -> DynamicVector<decltype(std::abs(v[0])), TF>
    {
        return map(v, [](const T& x) { return std::abs(x); });
    }
    template <typename T, bool TF>
    T sum(const DynamicVector<T, TF>& v)
    {
        T s = T();
        for(const auto& x : v) s += x;
        return s;
    }
    template <typename T, bool TF>
    T dot(const DynamicVector<T, TF>& a, const DynamicVector<T, TF>& b)
    {
        a.match(b);
        T s = T();
        for(size_t i = 0; i < a.size(); ++i) s += a[i] * b[i];
        return s;
    }
    template <typename T, bool TF>
    auto norm(const DynamicVector<T, TF>& v) -> decltype(std::abs(v[0]))
    {
        decltype(std::abs(v[0])) s = 0;
        for(const auto& x : v) s += std::norm(x);
        return std::sqrt(s);
    }
    template <typename T, bool TF>
    auto length(const DynamicVector<T, TF>& v) -> decltype(norm(v))
    {
        return norm(v);
    }
    template <typename T, bool TF>
    auto l2Norm(const DynamicVector<T, TF>& v) -> decltype(norm(v))
    {
        return norm(v);
    }
    template <typename T, bool TF>
    auto sqrLength(const DynamicVector<T, TF>& v) -> decltype(std::abs(v[0]))
    {
        decltype(std::abs(v[0])) s = 0;
        for(const auto& x : v) s += std::norm(x);
        return s;
    }
    template <typename T, bool TF>
    T operator,(const DynamicVector<T, TF>& a, const DynamicVector<T, TF>& b)
    {
        return dot(a, b);
    }
    template <typename T, bool TF>
    T max(const DynamicVector<T, TF>& v)
    {
        return v.size() ? *std::max_element(v.begin(), v.end()) : T();
    }
    template <typename T, bool TF>
    T min(const DynamicVector<T, TF>& v)
    {
        return v.size() ? *std::min_element(v.begin(), v.end()) : T();
    }
    template <typename T, bool TF>
    const DynamicVector<T, TF>& eval(const DynamicVector<T, TF>& v)
    {
        return v;
    }
    template <typename T, bool TF>
    DynamicVector<T, TF> evaluate(const DynamicVector<T, TF>& v)
    {
        return v;
    }
    template <typename T, bool TF>
    size_t nonZeros(const DynamicVector<T, TF>& v)
    {
        return v.nonZeros();
    }
    template <typename T, bool TF>
    bool isDefault(const DynamicVector<T, TF>& v)
    {
        return v.size() == 0;
    }
    template <typename T, bool TF>
    bool isnan(const DynamicVector<T, TF>& v)
    {
        for(const auto& x : v)
            if(std::isnan(std::real(x)) || std::isnan(std::imag(x))) return true;
        return false;
    }
    // part of a vector, or a row or column of a dense matrix: every stride-th element from the first
    template <typename V, typename T, bool TF>
    class View
    {
        V* v_;
        size_t first_, n_, stride_;
        auto at_(size_t i) const -> decltype((*v_)[i])
        {
            assert(i < n_);
            return (*v_)[first_ + i * stride_];
        }

    public:
        using ElementType = T;
        View(V& v, size_t first, size_t n, size_t stride) : v_(&v), first_(first), n_(n), stride_(stride)
        {
            if(n && first + (n - 1) * stride >= v.size()) throw std::invalid_argument("Invalid view specification");
        }
        View(const View&) = default;
        size_t size() const { return n_; }
        auto operator[](size_t i) const -> decltype((*v_)[i]) { return at_(i); }
        operator DynamicVector<T, TF>() const
        {
            DynamicVector<T, TF> r(n_);
            for(size_t i = 0; i < n_; ++i) r[i] = at_(i);
            return r;
        }
        DynamicVector<T, TF> copy() const { return *this; }
        View& operator=(const View& o) { return *this = o.copy(); }
        View& operator=(const DynamicVector<T, TF>& o)
        {
            if(o.size() != n_) throw std::invalid_argument("Vector sizes do not match");
            for(size_t i = 0; i < n_; ++i) at_(i) = o[i];
            return *this;
        }
        View& operator=(const T& x)
        {
            for(size_t i = 0; i < n_; ++i) at_(i) = x;
            return *this;
        }
        View& operator+=(const DynamicVector<T, TF>& o) { return *this = copy() + o; }
        View& operator-=(const DynamicVector<T, TF>& o) { return *this = copy() - o; }
        template <typename S>
        View& operator*=(const S& x)
        {
            for(size_t i = 0; i < n_; ++i) at_(i) *= x;
            return *this;
        }
    };
    template <typename T, bool TF>
    View<DynamicVector<T, TF>, T, TF> subvector(DynamicVector<T, TF>& v, size_t first, size_t n)
    {
        return {v, first, n, 1};
    }
    template <typename T, bool TF>
    View<const DynamicVector<T, TF>, T, TF> subvector(const DynamicVector<T, TF>& v, size_t first, size_t n)
    {
        return {v, first, n, 1};
    }
    inline void setNumThreads(size_t) {}
    inline size_t getNumThreads() { return 1; }

    template <typename T, bool TF>
    size_t size(const DynamicVector<T, TF>& v)
    {
        return v.size();
    }
    template <typename T, bool TF>
    void reset(DynamicVector<T, TF>& v)
    {
        v.reset();
    }
    template <typename T, bool TF>
    void clear(DynamicVector<T, TF>& v)
    {
        v.clear();
    }
    template <typename T, bool TF>
    void resize(DynamicVector<T, TF>& v, size_t n, bool preserve = true)
    {
        v.resize(n, preserve);
    }
    template <typename T, bool TF>
    typename DynamicVector<T, TF>::Iterator begin(DynamicVector<T, TF>& v)
    {
        return v.begin();
    }
    template <typename T, bool TF>
    typename DynamicVector<T, TF>::Iterator end(DynamicVector<T, TF>& v)
    {
        return v.end();
    }
    template <typename T, bool TF>
    typename DynamicVector<T, TF>::ConstIterator begin(const DynamicVector<T, TF>& v)
    {
        return v.begin();
    }
    template <typename T, bool TF>
    typename DynamicVector<T, TF>::ConstIterator end(const DynamicVector<T, TF>& v)
    {
        return v.end();
    }

    // ------------------------------------------------------------------ StaticVector
    template <typename T, size_t N, bool TF = defaultTransposeFlag>
    class StaticVector
    {
        T v_[N];

    public:
        using ElementType = T;
        StaticVector()
        {
            for(auto& x : v_) x = T();
        }
        StaticVector(std::initializer_list<T> l)
        {
            if(l.size() > N) throw std::invalid_argument("Invalid setup of static vector");
            std::fill(std::copy(l.begin(), l.end(), v_), v_ + N, T());
        }
        T& operator[](size_t i)
        {
            assert(i < N);
            return v_[i];
        }
        const T& operator[](size_t i) const
        {
            assert(i < N);
            return v_[i];
        }
        static constexpr size_t size() { return N; }
        T* begin() { return v_; }
        T* end() { return v_ + N; }
        const T* begin() const { return v_; }
        const T* end() const { return v_ + N; }
        StaticVector& operator+=(const StaticVector& o)
        {
            for(size_t i = 0; i < N; ++i) v_[i] += o.v_[i];
            return *this;
        }
        StaticVector& operator-=(const StaticVector& o)
        {
            for(size_t i = 0; i < N; ++i) v_[i] -= o.v_[i];
            return *this;
        }
        StaticVector& operator*=(const T& s)
        {
            for(auto& x : v_) x *= s;
            return *this;
        }
        StaticVector& operator/=(const T& s)
        {
            for(auto& x : v_) x /= s;
            return *this;
        }
    };
    template <typename T, size_t N, bool TF>
    StaticVector<T, N, TF> operator+(StaticVector<T, N, TF> a, const StaticVector<T, N, TF>& b)
    {
        return a += b;
    }
    template <typename T, size_t N, bool TF>
    StaticVector<T, N, TF> operator-(StaticVector<T, N, TF> a, const StaticVector<T, N, TF>& b)
    {
        return a -= b;
    }
    template <typename T, size_t N, bool TF, typename S>
    typename std::enable_if<Value<S>::scalar, StaticVector<T, N, TF>>::type operator*(const S& s,
                                                                                      StaticVector<T, N, TF> a)
    {
        return a *= s;
    }
    template <typename T, size_t N, bool TF, typename S>
    typename std::enable_if<Value<S>::scalar, StaticVector<T, N, TF>>::type operator*(StaticVector<T, N, TF> a,
                                                                                      const S& s)
    {
        return a *= s;
    }
    template <typename T, size_t N, bool TF, typename S>
    typename std::enable_if<Value<S>::scalar, StaticVector<T, N, TF>>::type operator/(StaticVector<T, N, TF> a,
                                                                                      const S& s)
    {
        return a /= s;
    }
    template <typename T, size_t N, bool TF>
    StaticVector<T, N, TF> operator-(StaticVector<T, N, TF> a)
    {
        for(auto& x : a) x = -x;
        return a;
    }
    template <typename T, size_t N, bool TF>
    StaticVector<T, N, TF> operator*(StaticVector<T, N, TF> a, const StaticVector<T, N, TF>& b)
    {
        for(size_t i = 0; i < N; ++i) a[i] *= b[i];
        return a;
    }
    template <typename T, size_t N, bool TF>
    bool operator==(const StaticVector<T, N, TF>& a, const StaticVector<T, N, TF>& b)
    {
        return std::equal(a.begin(), a.end(), b.begin());
    }
    template <typename T, size_t N, bool TF>
    bool operator!=(const StaticVector<T, N, TF>& a, const StaticVector<T, N, TF>& b)
    {
        return !(a == b);
    }
    template <typename T, size_t N, bool TF>
    StaticVector<T, N, !TF> trans(const StaticVector<T, N, TF>& v)
    {
        StaticVector<T, N, !TF> r;
        for(size_t i = 0; i < N; ++i) r[i] = v[i];
        return r;
    }
    template <typename T, size_t N>
    T operator*(const StaticVector<T, N, rowVector>& a, const StaticVector<T, N, columnVector>& b)
    {
        T s = T();
        for(size_t i = 0; i < N; ++i) s += a[i] * b[i];
        return s;
    }
    template <typename T, size_t N, bool TF>
    T operator,(const StaticVector<T, N, TF>& a, const StaticVector<T, N, TF>& b)
    {
        T s = T();
        for(size_t i = 0; i < N; ++i) s += a[i] * b[i];
        return s;
    }
    template <typename T, size_t N, bool TF>
    auto sqrLength(const StaticVector<T, N, TF>& v) -> decltype(std::abs(v[0]))
    {
        decltype(std::abs(v[0])) s = 0;
        for(const auto& x : v) s += std::norm(x);
        return s;
    }
    template <typename T, size_t N, bool TF>
    auto norm(const StaticVector<T, N, TF>& v) -> decltype(std::abs(v[0]))
    {
        return std::sqrt(sqrLength(v));
    }
    template <typename T, size_t N, bool TF>
    T sum(const StaticVector<T, N, TF>& v)
    {
        return std::accumulate(v.begin(), v.end(), T());
    }
    template <typename T, size_t N, bool TF>
    T dot(const StaticVector<T, N, TF>& a, const StaticVector<T, N, TF>& b)
    {
        T s = T();
        for(size_t i = 0; i < N; ++i) s += a[i] * b[i];
        return s;
    }
    template <typename T, size_t N, bool TF>
    std::ostream& operator<<(std::ostream& s, const StaticVector<T, N, TF>& v)
    {
        for(const auto& x : v) s << x << '\n';
        return s;
    }

    // --------------------------------------------------------------- CompressedVector
    template <typename T, bool TF = defaultTransposeFlag>
    class CompressedVector
    {
        size_t n_ = 0;
        std::vector<std::pair<size_t, T>> v_;

    public:
        using ElementType = T;
        CompressedVector() {}
        explicit CompressedVector(size_t n) : n_(n) {}
        size_t size() const { return n_; }
        size_t nonZeros() const { return v_.size(); }
    };

    // ------------------------------------------------------------------- DynamicMatrix
    template <typename T, bool SO>
    class CompressedMatrix;
    template <typename T, bool SO = defaultStorageOrder>
    class DynamicMatrix
    {
        size_t m_ = 0, n_ = 0;
        std::vector<T> v_;

    public:
        using ElementType = T;
        using Iterator      = typename std::vector<T>::iterator;
        using ConstIterator = typename std::vector<T>::const_iterator;
        DynamicMatrix() {}
        DynamicMatrix(size_t m, size_t n) : m_(m), n_(n), v_(m * n) {}
        DynamicMatrix(size_t m, size_t n, const T& s) : m_(m), n_(n), v_(m * n, s) {}
        DynamicMatrix(const CompressedMatrix<T, SO>& o);
        std::vector<T>& elements() { return v_; }
        const std::vector<T>& elements() const { return v_; }
        Iterator begin(size_t i) { return v_.begin() + i * n_; }
        Iterator end(size_t i) { return v_.begin() + (i + 1) * n_; }
        ConstIterator begin(size_t i) const { return v_.begin() + i * n_; }
        ConstIterator end(size_t i) const { return v_.begin() + (i + 1) * n_; }
        DynamicMatrix& operator=(const T& s)
        {
            std::fill(v_.begin(), v_.end(), s);
            return *this;
        }
        DynamicMatrix& operator+=(const DynamicMatrix& o)
        {
            match(o);
            for(size_t i = 0; i < v_.size(); ++i) v_[i] += o.v_[i];
            return *this;
        }
        DynamicMatrix& operator-=(const DynamicMatrix& o)
        {
            match(o);
            for(size_t i = 0; i < v_.size(); ++i) v_[i] -= o.v_[i];
            return *this;
        }
        template <typename S>
        typename std::enable_if<Value<S>::scalar, DynamicMatrix&>::type operator/=(const S& s)
        {
            for(auto& x : v_) x /= s;
            return *this;
        }
        DynamicMatrix& transpose()
        {
            DynamicMatrix o(n_, m_);
            for(size_t i = 0; i < m_; ++i)
                for(size_t j = 0; j < n_; ++j) o(j, i) = (*this)(i, j);
            std::swap(*this, o);
            return *this;
        }
        void match(const DynamicMatrix& o) const
        {
            if(o.m_ != m_ || o.n_ != n_) throw std::invalid_argument("Matrix sizes do not match");
        }
        DynamicMatrix(std::initializer_list<std::initializer_list<T>> l) : m_(l.size())
        {
            for(const auto& r : l) n_ = std::max(n_, r.size());
            v_.assign(m_ * n_, T());
            size_t i = 0;
            for(const auto& r : l) {
                std::copy(r.begin(), r.end(), v_.begin() + i * n_);
                ++i;
            }
        }
        size_t rows() const { return m_; }
        size_t columns() const { return n_; }
        T& operator()(size_t i, size_t j)
        {
            assert(i < m_ && j < n_);
            return v_[i * n_ + j];
        }
        const T& operator()(size_t i, size_t j) const
        {
            assert(i < m_ && j < n_);
            return v_[i * n_ + j];
        }
        template <typename S>
        typename std::enable_if<Value<S>::scalar, DynamicMatrix&>::type operator*=(const S& s)
        {
            for(auto& x : v_) x *= s;
            return *this;
        }
        void reset() { std::fill(v_.begin(), v_.end(), T()); }
        void resize(size_t m, size_t n, bool preserve = true)
        {
            DynamicMatrix o(m, n);
            if(preserve)
                for(size_t i = 0; i < std::min(m, m_); ++i)
                    for(size_t j = 0; j < std::min(n, n_); ++j) o(i, j) = (*this)(i, j);
            std::swap(*this, o);
        }
    };
    template <typename T, bool SO>
    DynamicVector<T, columnVector> operator*(const DynamicMatrix<T, SO>& m, const DynamicVector<T, columnVector>& v)
    {
        if(m.columns() != v.size()) throw std::invalid_argument("Matrix and vector sizes do not match");
        sim::tick();
        DynamicVector<T, columnVector> r(m.rows());
        for(size_t i = 0; i < m.rows(); ++i) {
            T s = T();
            for(size_t j = 0; j < m.columns(); ++j) s += m(i, j) * v[j];
            r[i] = s;
        }
        return r;
    }

    template <typename T, bool SO>
    size_t rows(const DynamicMatrix<T, SO>& m)
    {
        return m.rows();
    }
    template <typename T, bool SO>
    size_t columns(const DynamicMatrix<T, SO>& m)
    {
        return m.columns();
    }
    template <typename T, bool SO>
    void reset(DynamicMatrix<T, SO>& m)
    {
        m.reset();
    }

    // ---------------------------------------------------------------- CompressedMatrix
    template <typename T, bool SO>
    View<std::vector<T>, T, rowVector> row(DynamicMatrix<T, SO>& m, size_t i)
    {
        return {m.elements(), i * m.columns(), m.columns(), 1};
    }
    template <typename T, bool SO>
    View<const std::vector<T>, T, rowVector> row(const DynamicMatrix<T, SO>& m, size_t i)
    {
        return {m.elements(), i * m.columns(), m.columns(), 1};
    }
    template <typename T, bool SO>
    View<std::vector<T>, T, columnVector> column(DynamicMatrix<T, SO>& m, size_t j)
    {
        return {m.elements(), j, m.rows(), m.columns()};
    }
    template <typename T, bool SO>
    View<const std::vector<T>, T, columnVector> column(const DynamicMatrix<T, SO>& m, size_t j)
    {
        return {m.elements(), j, m.rows(), m.columns()};
    }
    template <typename T, bool SO>
    DynamicMatrix<T, SO> operator+(DynamicMatrix<T, SO> a, const DynamicMatrix<T, SO>& b)
    {
        return a += b;
    }
    template <typename T, bool SO>
    DynamicMatrix<T, SO> operator-(DynamicMatrix<T, SO> a, const DynamicMatrix<T, SO>& b)
    {
        return a -= b;
    }
    template <typename T, bool SO>
    DynamicMatrix<T, SO> operator*(const DynamicMatrix<T, SO>& a, const DynamicMatrix<T, SO>& b)
    {
        if(a.columns() != b.rows()) throw std::invalid_argument("Matrix sizes do not match");
        DynamicMatrix<T, SO> r(a.rows(), b.columns(), T());
        for(size_t i = 0; i < a.rows(); ++i)
            for(size_t k = 0; k < a.columns(); ++k)
                for(size_t j = 0; j < b.columns(); ++j) r(i, j) += a(i, k) * b(k, j);
        return r;
    }
    template <typename T, bool SO>
    DynamicMatrix<T, SO> trans(DynamicMatrix<T, SO> m)
    {
        return m.transpose();
    }
    template <typename T, bool SO>
    DynamicMatrix<T, SO> conj(DynamicMatrix<T, SO> m)
    {
        for(auto& x : m.elements()) x = conj_of(x);
        return m;
    }
    template <typename T, bool SO>
    DynamicMatrix<T, SO> ctrans(DynamicMatrix<T, SO> m)
    {
        return conj(trans(m));
    }

    template <typename T, bool SO = defaultStorageOrder>
    class CompressedMatrix
    {
    public:
        struct Element {
            size_t index_;
            T value_;
            size_t index() const { return index_; }
            T& value() { return value_; }
            const T& value() const { return value_; }
        };
        using ElementType   = T;
        using Iterator      = typename std::vector<Element>::iterator;
        using ConstIterator = typename std::vector<Element>::const_iterator;

    private:
        size_t m_ = 0, n_ = 0;
        std::vector<std::vector<Element>> r_;
        size_t reserved_ = 0, used_ = 0, row_ = 0; // as for the low-level interface: appended, row being filled
        bool by_row_ = false;
        static void misuse(const char* what)
        { // the original does not check these and overwrites memory or reads garbage
            fprintf(stderr, "CompressedMatrix: %s\n", what);
            abort();
        }

    public:
        CompressedMatrix() {}
        CompressedMatrix(size_t m, size_t n) : m_(m), n_(n), r_(m) {}
        CompressedMatrix(size_t m, size_t n, size_t nz) : m_(m), n_(n), r_(m), reserved_(nz) {}
        CompressedMatrix(size_t m, size_t n, const std::vector<size_t>& nz) : m_(m), n_(n), r_(m), by_row_(true)
        {
            for(size_t i = 0; i < m && i < nz.size(); ++i) r_[i].reserve(nz[i]);
        }
        void erase(size_t i, size_t j)
        {
            const auto p = find(i, j);
            if(p != r_[i].end()) r_[i].erase(p);
        }
        CompressedMatrix& operator+=(const CompressedMatrix& o)
        {
            if(o.m_ != m_ || o.n_ != n_) throw std::invalid_argument("Matrix sizes do not match");
            for(size_t i = 0; i < m_; ++i)
                for(const auto& e : o.r_[i]) (*this)(i, e.index_) += e.value_;
            return *this;
        }
        CompressedMatrix& operator-=(const CompressedMatrix& o)
        {
            if(o.m_ != m_ || o.n_ != n_) throw std::invalid_argument("Matrix sizes do not match");
            for(size_t i = 0; i < m_; ++i)
                for(const auto& e : o.r_[i]) (*this)(i, e.index_) -= e.value_;
            return *this;
        }
        template <typename S>
        typename std::enable_if<Value<S>::scalar, CompressedMatrix&>::type operator/=(const S& s)
        {
            for(auto& r : r_)
                for(auto& e : r) e.value_ /= s;
            return *this;
        }
        CompressedMatrix& transpose()
        {
            CompressedMatrix o(n_, m_);
            for(size_t i = 0; i < m_; ++i)
                for(const auto& e : r_[i]) o.insert(e.index_, i, e.value_);
            std::swap(*this, o);
            return *this;
        }
        size_t rows() const { return m_; }
        size_t columns() const { return n_; }
        size_t nonZeros() const
        {
            size_t n = 0;
            for(const auto& r : r_) n += r.size();
            return n;
        }
        size_t nonZeros(size_t i) const { return r_[i].size(); }
        size_t capacity() const { return std::max(reserved_, nonZeros()); }
        void resize(size_t m, size_t n, bool preserve = true)
        {
            (void)preserve;
            m_ = m;
            n_ = n;
            r_.resize(m);
        }
        void reserve(size_t nz) { reserved_ = std::max(reserved_, nz); }
        void reserve(size_t row, size_t nz)
        {
            r_[row].reserve(nz);
            by_row_ = true;
        }
        void reset()
        {
            for(auto& r : r_) r.clear();
            used_ = row_ = 0;
        }
        void clear()
        {
            used_ = row_ = 0;
            m_ = n_ = 0;
            r_.clear();
        }
        // low level: elements of a row in ascending column order
        void append(size_t i, size_t j, const T& v, bool check = false)
        {
            assert(i < m_ && j < n_);
            if(check && v == T()) return;
            if(!by_row_ && ++used_ > reserved_) misuse("append without reserved capacity");
            if(!by_row_ && i != row_) misuse("append to a row before the ones above are finalized");
            if(!r_[i].empty() && r_[i].back().index_ > j) misuse("append in descending order");
            r_[i].push_back(Element{j, v});
        }
        void finalize(size_t i)
        {
            assert(i < m_);
            row_ = i + 1;
        }
        Iterator insert(size_t i, size_t j, const T& v)
        {
            assert(i < m_ && j < n_);
            auto& r = r_[i];
            auto p  = std::lower_bound(r.begin(), r.end(), j,
                                      [](const Element& e, size_t k) { return e.index_ < k; });
            if(p != r.end() && p->index_ == j) throw std::invalid_argument("Bad access index");
            return r.insert(p, Element{j, v});
        }
        T& operator()(size_t i, size_t j)
        {
            assert(i < m_ && j < n_);
            for(auto& e : r_[i])
                if(e.index_ == j) return e.value_;
            return insert(i, j, T())->value_;
        }
        T operator()(size_t i, size_t j) const
        {
            assert(i < m_ && j < n_);
            for(const auto& e : r_[i])
                if(e.index_ == j) return e.value_;
            return T();
        }
        Iterator begin(size_t i) { return r_[i].begin(); }
        Iterator end(size_t i) { return r_[i].end(); }
        ConstIterator begin(size_t i) const { return r_[i].begin(); }
        ConstIterator end(size_t i) const { return r_[i].end(); }
        ConstIterator cbegin(size_t i) const { return r_[i].begin(); }
        ConstIterator cend(size_t i) const { return r_[i].end(); }
        Iterator lowerBound(size_t i, size_t j)
        {
            return std::lower_bound(r_[i].begin(), r_[i].end(), j, [](const Element& e, size_t k) { return e.index_ < k; });
        }
        ConstIterator lowerBound(size_t i, size_t j) const
        {
            return std::lower_bound(r_[i].begin(), r_[i].end(), j, [](const Element& e, size_t k) { return e.index_ < k; });
        }
        Iterator find(size_t i, size_t j)
        {
            const auto p = lowerBound(i, j);
            return p != r_[i].end() && p->index_ == j ? p : r_[i].end();
        }
        ConstIterator find(size_t i, size_t j) const
        {
            const auto p = lowerBound(i, j);
            return p != r_[i].end() && p->index_ == j ? p : r_[i].end();
        }
        Iterator set(size_t i, size_t j, const T& v)
        {
            const auto p = find(i, j);
            if(p == r_[i].end()) return insert(i, j, v);
            p->value_ = v;
            return p;
        }
        template <typename S>
        typename std::enable_if<Value<S>::scalar, CompressedMatrix&>::type operator*=(const S& s)
        {
            for(auto& r : r_)
                for(auto& e : r) e.value_ *= s;
            return *this;
        }
    };
    template <typename T, bool SO>
    size_t rows(const CompressedMatrix<T, SO>& m)
    {
        return m.rows();
    }
    template <typename T, bool SO>
    size_t columns(const CompressedMatrix<T, SO>& m)
    {
        return m.columns();
    }
    template <typename T, bool SO>
    size_t nonZeros(const CompressedMatrix<T, SO>& m)
    {
        return m.nonZeros();
    }
    template <typename T, bool SO>
    void reset(CompressedMatrix<T, SO>& m)
    {
        m.reset();
    }
    template <typename T, bool SO>
    void clear(CompressedMatrix<T, SO>& m)
    {
        m.clear();
    }
    template <typename T, bool SO>
    DynamicMatrix<T, SO>::DynamicMatrix(const CompressedMatrix<T, SO>& o) : DynamicMatrix(o.rows(), o.columns(), T())
    {
        for(size_t i = 0; i < m_; ++i)
            for(auto e = o.begin(i); e != o.end(i); ++e) (*this)(i, e->index()) = e->value();
    }
    template <typename T, bool SO>
    CompressedMatrix<T, SO> operator+(CompressedMatrix<T, SO> a, const CompressedMatrix<T, SO>& b)
    {
        return a += b;
    }
    template <typename T, bool SO>
    CompressedMatrix<T, SO> operator-(CompressedMatrix<T, SO> a, const CompressedMatrix<T, SO>& b)
    {
        return a -= b;
    }
    template <typename T, bool SO, typename S>
    typename std::enable_if<Value<S>::scalar, CompressedMatrix<T, SO>>::type operator*(CompressedMatrix<T, SO> a, const S& s)
    {
        return a *= s;
    }
    template <typename T, bool SO, typename S>
    typename std::enable_if<Value<S>::scalar, CompressedMatrix<T, SO>>::type operator*(const S& s, CompressedMatrix<T, SO> a)
    {
        return a *= s;
    }
    template <typename T, bool SO, typename S>
    typename std::enable_if<Value<S>::scalar, CompressedMatrix<T, SO>>::type operator/(CompressedMatrix<T, SO> a, const S& s)
    {
        return a /= s;
    }
    template <typename T, bool SO>
    CompressedMatrix<T, SO> operator*(const CompressedMatrix<T, SO>& a, const CompressedMatrix<T, SO>& b)
    {
        if(a.columns() != b.rows()) throw std::invalid_argument("Matrix sizes do not match");
        CompressedMatrix<T, SO> r(a.rows(), b.columns());
        for(size_t i = 0; i < a.rows(); ++i)
            for(auto x = a.begin(i); x != a.end(i); ++x)
                for(auto y = b.begin(x->index()); y != b.end(x->index()); ++y) r(i, y->index()) += x->value() * y->value();
        return r;
    }
    template <typename T, bool SO>
    CompressedMatrix<T, SO> trans(CompressedMatrix<T, SO> m)
    {
        return m.transpose();
    }
    template <typename T, bool SO>
    CompressedMatrix<T, SO> conj(CompressedMatrix<T, SO> m)
    {
        for(size_t i = 0; i < m.rows(); ++i)
            for(auto e = m.begin(i); e != m.end(i); ++e) e->value() = conj_of(e->value());
        return m;
    }
    template <typename T, bool SO>
    CompressedMatrix<T, SO> ctrans(CompressedMatrix<T, SO> m)
    {
        return conj(trans(m));
    }
    template <typename T, bool SO>
    DynamicVector<T, columnVector> operator*(const CompressedMatrix<T, SO>& m,
                                             const DynamicVector<T, columnVector>& v)
    {
        if(m.columns() != v.size()) throw std::invalid_argument("Matrix and vector sizes do not match");
        sim::tick();
        DynamicVector<T, columnVector> r(m.rows());
        for(size_t i = 0; i < m.rows(); ++i) {
            T s = T();
            for(auto e = m.begin(i); e != m.end(i); ++e) s += e->value() * v[e->index()];
            r[i] = s;
        }
        return r;
    }

    // --------------------------------------------------------------------- Archive
    template <typename Stream>
    class Archive
    {
        Stream& s_;

    public:
        explicit Archive(Stream& s) : s_(s) {}
        Stream& stream() { return s_; }
        explicit operator bool() const { return bool(s_); }
        bool operator!() const { return !s_; }
        template <typename T>
        void put(const T& v)
        {
            s_.write(reinterpret_cast<const char*>(&v), sizeof(T));
        }
        template <typename T>
        void get(T& v)
        {
            s_.read(reinterpret_cast<char*>(&v), sizeof(T));
        }
        void flush() { s_.flush(); }
    };
    // like Blaze: a header that is checked when reading, std::runtime_error when it does not fit
    template <typename S, typename T, bool TF>
    Archive<S>& operator<<(Archive<S>& a, const DynamicVector<T, TF>& v)
    {
        if(!a) throw std::runtime_error("Faulty archive detected");
        a.put(uint8_t(1));
        a.put(uint8_t(TF ? 2 : 0));
        a.put(uint8_t(8));
        a.put(uint8_t(sizeof(T)));
        a.put(uint64_t(v.size()));
        if(!a) throw std::runtime_error("File header could not be serialized");
        for(size_t i = 0; i < v.size(); ++i) {
            a.put(v[i]);
            if(!a) throw std::runtime_error("Dense vector could not be serialized");
        }
        return a;
    }
    template <typename S, typename T, bool TF>
    Archive<S>& operator>>(Archive<S>& a, DynamicVector<T, TF>& v)
    {
        if(!a) throw std::runtime_error("Faulty archive detected");
        uint8_t version = 0, type = 0, elemtype = 0, elemsize = 0;
        uint64_t n = 0;
        a.get(version);
        a.get(type);
        a.get(elemtype);
        a.get(elemsize);
        a.get(n);
        if(!a) throw std::runtime_error("Corrupt archive detected");
        if(version != 1 || type != (TF ? 2 : 0) || elemtype != 8 || elemsize != sizeof(T))
            throw std::runtime_error("Invalid vector header detected");
        if(n > (uint64_t(1) << 32)) throw std::runtime_error("Invalid vector size detected");
        v.resize(n, false);
        T x;
        for(size_t i = 0; i < n && a; ++i) {
            a.get(x);
            if(a) v[i] = x;
        }
        if(!a) throw std::runtime_error("Dense vector could not be reconstituted");
        return a;
    }
    template <typename S, typename T, bool SO>
    Archive<S>& operator<<(Archive<S>& a, const CompressedMatrix<T, SO>& m)
    {
        if(!a) throw std::runtime_error("Faulty archive detected");
        a.put(uint8_t(1));
        a.put(uint8_t(3));
        a.put(uint64_t(m.rows()));
        a.put(uint64_t(m.columns()));
        a.put(uint64_t(m.nonZeros()));
        for(size_t i = 0; i < m.rows(); ++i) {
            a.put(uint64_t(m.nonZeros(i)));
            for(auto e = m.begin(i); e != m.end(i); ++e) {
                a.put(uint64_t(e->index()));
                a.put(e->value());
            }
        }
        if(!a) throw std::runtime_error("Sparse matrix could not be serialized");
        return a;
    }
} // namespace blaze
#endif
