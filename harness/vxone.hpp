// One component stands for any component of a state.
#pragma once
struct One {
    using value_type = double;
    double v[1];
    One() : v{0} {}
    explicit One(size_t) : v{0} {}
    One(std::initializer_list<int>) : v{0} {}
    double &operator[](size_t i) { return v[i]; }
    double const &operator[](size_t i) const { return v[i]; }
    double *begin() { return v; }
    double *end() { return v + 1; }
    double const *begin() const { return v; }
    double const *end() const { return v + 1; }
    size_t size() const { return 1; }
    void resize(size_t) {}
};
struct Tm {
    using TypeSet = Tm;
    template <class X>
    using Container = vx::Arr<X>;
    using Scalar = double;
    using StateScalar = double;
    using ScalarArray = One;
    using StateScalarArray = One;
    using IntArray = Container<int>;
    using IdxArray = Container<size_t>;
    using Vector = vx::V3;
    using StateVector = vx::V3;
    using VectorArray = Container<Vector>;
    using StateVectorArray = Container<StateVector>;
};
