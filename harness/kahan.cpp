// compensated numbers (kahan-number.hpp) over a scalar whose addition and subtraction round:
// every result is fl(exact result) with fl an arbitrary function
#include "vx.hpp"
#include "math.hpp"
using namespace vx;

struct Fl {
    double v;
    Fl() = default;
    constexpr Fl(double x) : v(x) {}
    constexpr Fl(int x) : v(x) {}
    explicit operator double() const { return v; }
    friend Fl operator+(Fl a, Fl b) { return Fl(vx_uf1(0, a.v + b.v)); }
    friend Fl operator-(Fl a, Fl b) { return Fl(vx_uf1(0, a.v - b.v)); }
    friend Fl operator*(Fl a, Fl b) { return Fl(vx_uf1(0, a.v * b.v)); }
    friend Fl operator/(Fl a, Fl b) { return Fl(vx_uf1(0, a.v / b.v)); }
    friend Fl &operator+=(Fl &a, Fl b) { return a = a + b; }
    friend Fl &operator-=(Fl &a, Fl b) { return a = a - b; }
    friend Fl &operator*=(Fl &a, Fl b) { return a = a * b; }
    friend Fl &operator/=(Fl &a, Fl b) { return a = a / b; }
    friend Fl operator-(Fl a) { return Fl(-a.v); }
    friend bool operator<(Fl a, Fl b) { return a.v < b.v; }
    friend bool operator>(Fl a, Fl b) { return a.v > b.v; }
    friend bool operator<=(Fl a, Fl b) { return a.v <= b.v; }
    friend bool operator>=(Fl a, Fl b) { return a.v >= b.v; }
    friend bool operator==(Fl a, Fl b) { return a.v == b.v; }
    friend bool operator!=(Fl a, Fl b) { return a.v != b.v; }
};
static double g_in;
std::istream &operator>>(std::istream &i, Fl &f) {
    f.v = g_in;
    return i;
}
inline double val(Fl f) { return f.v; }
inline double val(double f) { return f; }

// io: real, err (and err_of_err) of the left operand, in place; rhs the same layout
template <class N, bool klein>
N rd(double const *p) {
    using S = typename N::value_type;
    S const s = p[0];
    N n(s);
    n.err = S(p[1]);
    if constexpr (klein) n.err_of_err = S(p[2]);
    return n;
}
template <class N, bool klein>
void wr(double *p, N const &n) {
    p[0] = val(n.real), p[1] = val(n.err);
    if constexpr (klein) p[2] = val(n.err_of_err);
}
#define OPS(name, N, K)                                                                                      \
    VX_EXPORT void h_##name##_add(double *a, double *b) { auto x = rd<N, K>(a); x += rd<N, K>(b); wr<N, K>(a, x); }   \
    VX_EXPORT void h_##name##_sub(double *a, double *b) { auto x = rd<N, K>(a); x -= rd<N, K>(b); wr<N, K>(a, x); }   \
    VX_EXPORT void h_##name##_mul(double *a, double *b) { auto x = rd<N, K>(a); x *= rd<N, K>(b); wr<N, K>(a, x); }   \
    VX_EXPORT void h_##name##_div(double *a, double *b) { auto x = rd<N, K>(a); x /= rd<N, K>(b); wr<N, K>(a, x); }   \
    VX_EXPORT void h_##name##_misc(double *a, double *b, double s, double *out) {                            \
        using S = typename N::value_type;                                                                    \
        auto x = rd<N, K>(a);                                                                                \
        wr<N, K>(out, -x);                                                                                   \
        N c(x); wr<N, K>(out + 3, c);                                                                        \
        N d = rd<N, K>(b); d = x; wr<N, K>(out + 6, d);                                                      \
        N f(S{s}); wr<N, K>(out + 9, f);                                                                     \
        c.zero_err(); wr<N, K>(out + 12, c);                                                                 \
        out[15] = val(static_cast<S>(x));                                                                    \
        N const y(x); out[16] = val(static_cast<S>(y));                                                      \
    }                                                                                                        \
    VX_EXPORT void h_##name##_chain(double *a, double *b, double *cc) {                                      \
        auto x = rd<N, K>(a); (x += rd<N, K>(b)) -= rd<N, K>(cc); wr<N, K>(a, x); }                          \
    VX_EXPORT void h_##name##_sum(size_t n, double *a, double *xs) {                                         \
        using S = typename N::value_type;                                                                    \
        auto x = rd<N, K>(a); for (size_t i = 0; i < n; ++i) x += N(static_cast<S>(xs[i])); wr<N, K>(a, x); }
OPS(kahan, hub::Kahan<Fl>, false)
OPS(neumaier, hub::Neumaier<Fl>, false)
OPS(klein, hub::Klein<Fl>, true)
OPS(rkahan, hub::Kahan<double>, false)
OPS(rneumaier, hub::Neumaier<double>, false)
OPS(rklein, hub::Klein<double>, true)

template <class N, bool K>
void input(double *a, double s) {
    auto x = rd<N, K>(a);
    g_in = s;
    alignas(16) static char dummy[1024];
    reinterpret_cast<std::istream &>(dummy) >> x;
    wr<N, K>(a, x);
}
VX_EXPORT void h_kahan_in(double *a, double s) { input<hub::Kahan<Fl>, false>(a, s); }
VX_EXPORT void h_neumaier_in(double *a, double s) { input<hub::Neumaier<Fl>, false>(a, s); }
VX_EXPORT void h_klein_in(double *a, double s) { input<hub::Klein<Fl>, true>(a, s); }
