// Shared harness support.
//  VX_NATIVE undefined: the templates of /repo are instantiated with VTypes,
//    whose containers are growable views over verifier-managed memory.
//  VX_NATIVE defined (counterexample replay): the same harness instantiates
//    the templates with the project's own hub::Types (llvm::SmallVector).
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <iostream>
#include <list>
#include <memory>
#include <numeric>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

#include "type-class.hpp"
#include "vector/vector3.hpp"
#include "kahan-number.hpp"

extern "C" {
void *vx_new(size_t elem_size);   // contract: fresh, unbounded, zero-filled memory
void vx_free(void *);             // contract: no effect
size_t vx_find(size_t const *, size_t n, size_t v);                  // contract of std::find on a permutation
bool vx_same(size_t const *, size_t, size_t const *, size_t);        // contract: equal contents
}

#ifndef VX_NATIVE
namespace std {
    template <>
    inline size_t const *find<size_t const *, size_t>(size_t const *b, size_t const *e, size_t const &v) {
        return b + vx_find(b, static_cast<size_t>(e - b), v);
    }
}  // namespace std
#endif

// uninterpreted functions f_tag(x...) (any function); native replays use one fixed instance
#ifdef VX_NATIVE
namespace vx_native {
    template <class... A>
    double uf(int tag, A... x) {
        double s = 0.3 + 0.7 * tag;
        int i = 0;
        ((s += (0.11 + 0.07 * i) * x + 0.013 * (i + 1) * x * x + 0.017 * tag * x, ++i), ...);
        return s;
    }
}  // namespace vx_native
#define vx_uf1 vx_native::uf
#define vx_uf2 vx_native::uf
#define vx_uf3 vx_native::uf
#define vx_uf4 vx_native::uf
#define vx_uf6 vx_native::uf
#else
extern "C" {
double vx_uf1(int tag, double);
double vx_uf2(int tag, double, double);
double vx_uf3(int tag, double, double, double);
double vx_uf4(int tag, double, double, double, double);
double vx_uf6(int tag, double, double, double, double, double, double);
}
#endif

namespace vx {
    template <class T>
    struct VArr {
        using value_type = T;
        using iterator = T *;
        using const_iterator = T const *;
        using reference = T &;
        using const_reference = T const &;
        using size_type = size_t;
        using difference_type = std::ptrdiff_t;
        T *d;
        size_t n;
        VArr() : d(static_cast<T *>(vx_new(sizeof(T)))), n(0) {}
        explicit VArr(size_t m) : VArr() { resize(m); }
        VArr(size_t m, T const &v) : VArr() { resize(m, v); }
        VArr(std::initializer_list<T> l) : VArr() {
            for (auto const &x : l) emplace_back(x);
        }
        VArr(VArr const &o) : d(static_cast<T *>(vx_new(sizeof(T)))), n(o.n) {
            for (size_t i = 0; i < n; ++i) d[i] = o.d[i];
        }
        VArr(VArr &&o) noexcept : d(o.d), n(o.n) {
            o.d = static_cast<T *>(vx_new(sizeof(T)));
            o.n = 0;
        }
        VArr &operator=(VArr const &o) {
            n = o.n;
            for (size_t i = 0; i < n; ++i) d[i] = o.d[i];
            return *this;
        }
        VArr &operator=(VArr &&o) noexcept {
            std::swap(d, o.d);
            std::swap(n, o.n);
            return *this;
        }
        T &operator[](size_t i) { return d[i]; }
        T const &operator[](size_t i) const { return d[i]; }
        T &at(size_t i) { return d[i]; }
        T const &at(size_t i) const { return d[i]; }
        T *data() { return d; }
        T const *data() const { return d; }
        T *begin() { return d; }
        T *end() { return d + n; }
        T const *begin() const { return d; }
        T const *end() const { return d + n; }
        T const *cbegin() const { return d; }
        T const *cend() const { return d + n; }
        T &front() { return d[0]; }
        T const &front() const { return d[0]; }
        T &back() { return d[n - 1]; }
        T const &back() const { return d[n - 1]; }
        size_t size() const { return n; }
        size_t capacity() const { return size_t(1) << 40; }
        bool empty() const { return n == 0; }
        void clear() { n = 0; }
        void reserve(size_t) {}
        void shrink_to_fit() {}
        void pop_back() { --n; }
        void resize(size_t m) {
            for (size_t i = n; i < m; ++i) d[i] = T();
            n = m;
        }
        void resize(size_t m, T const &v) {
            for (size_t i = n; i < m; ++i) d[i] = v;
            n = m;
        }
        template <class... A>
        T &emplace_back(A &&...a) {
            d[n] = T(std::forward<A>(a)...);
            return d[n++];
        }
        void push_back(T const &v) { d[n++] = v; }
        void swap(VArr &o) {
            std::swap(d, o.d);
            std::swap(n, o.n);
        }
        bool operator==(VArr const &o) const { return vx_same(d, n, o.d, o.n); }
        bool operator!=(VArr const &o) const { return !vx_same(d, n, o.d, o.n); }
        template <class It>
        void assign(It b, It e) {
            n = 0;
            for (; b != e; ++b) d[n++] = *b;
        }
    };

    template <typename Real, template <typename> typename V = hub::Vec3>
    struct VTypes {
        using TypeSet = VTypes<Real, V>;
        template <typename T>
        using Container = VArr<T>;
        using Scalar = typename hub::raw_type<Real>::type;
        using StateScalar = Real;
        using ScalarArray = Container<Scalar>;
        using StateScalarArray = Container<StateScalar>;
        using IntArray = Container<int>;
        using IdxArray = Container<size_t>;
        using Vector = V<Scalar>;
        using StateVector = V<StateScalar>;
        using VectorArray = Container<Vector>;
        using StateVectorArray = Container<StateVector>;
    };

#ifdef VX_NATIVE
    template <typename Real, template <typename> typename V = hub::Vec3>
    using Types = hub::Types<Real, V>;
    template <class T>
    using Arr = std::vector<T>;
#else
    template <typename Real, template <typename> typename V = hub::Vec3>
    using Types = VTypes<Real, V>;
    template <class T>
    using Arr = VArr<T>;
#endif
    using T = Types<double>;
    using V3 = hub::Vec3<double>;

    // connect a container with caller-owned raw memory (n elements)
    template <class C>
    void load(C &c, void const *p, size_t n) {
        using E = typename C::value_type;
#ifdef VX_NATIVE
        c.resize(n);
        for (size_t i = 0; i < n; ++i) c[i] = static_cast<E const *>(p)[i];
#else
        c.d = static_cast<E *>(const_cast<void *>(p));
        c.n = n;
#endif
    }
    // write the container back to raw memory (VX mode: copies unless it is the same memory)
    template <class C>
    void store(void *p, C const &c) {
        using E = std::remove_cv_t<std::remove_reference_t<decltype(c[0])>>;
#ifdef VX_NATIVE
        for (size_t i = 0; i < c.size(); ++i) static_cast<E *>(p)[i] = c[i];
#else
        if (static_cast<void const *>(c.data()) == p) return;
        size_t const n = c.size();
        for (size_t i = 0; i < n; ++i) static_cast<E *>(p)[i] = c[i];
#endif
    }
}  // namespace vx
#define VX_EXPORT extern "C" __attribute__((visibility("default")))
