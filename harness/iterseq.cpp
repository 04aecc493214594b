// The sequence iterator against an arbitrary integrator, error estimator and controller.
#include "vx.hpp"
#include "interaction/interaction.hpp"
#include "core-computation.hpp"
#include "dev-tools.hpp"
#include "vxone.hpp"
enum { bad, ev, trial, sub, phase, done, nG };
static size_t *g;
enum { X0, H, OLD, NEW, ERR, LIM, ST, nD };
static double *d;
static double *draws;
static size_t n_draws;
static void check(bool ok) { g[bad] = ok ? g[bad] : 1; }
static double draw() {
#ifdef VX_NATIVE
    double const x = draws[g[ev] % n_draws];
#else
    double const x = draws[g[ev]];
#endif
    g[ev] += 1;
    return x;
}
static constexpr double steps[13] = {1, 2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24};
struct Sys {
    using Scalar = double;
    template <class A>
    void write_to_scalar_array(A &a) const { a[0] = d[ST]; }
    template <class A>
    void read_from_scalar_array(A const &a) { d[ST] = a[0]; }
};
struct Int : Tm {
    using TypeSet = Tm;
    static constexpr size_t order = 4;
    void integrate(Sys &, double h) {
        check((g[done] == 0) & (h == d[H] / steps[g[trial]]) & ((g[sub] > 0) | (d[ST] == d[X0])) & (g[sub] < steps[g[trial]]));
        g[sub] += 1;
        d[ST] = draw();
        d[OLD] = (g[trial] == 0) ? d[ST] : d[OLD];
        if (g[trial] == 0) g[trial] = 1, g[sub] = 0;
    }
};
struct Err {
    double error(One const &a, One const &b, One const &c) {
        check((a[0] == d[X0]) & (b[0] == d[OLD]) & (c[0] == d[ST]) & (g[sub] == steps[g[trial]]) & (g[done] == 0));
        double const e = draw(), q = steps[g[trial]] / steps[g[trial] - 1];
        d[ERR] = 1.0 / (q * q * q * q - 1) * e;
        d[NEW] = d[ST];
        g[done] = (d[ERR] <= 1) | (g[trial] == 10) ? 1 : 0;
        d[OLD] = g[done] == 1 ? d[OLD] : d[ST];
        g[trial] += 1, g[sub] = 0;
        return e;
    }
    void set_atol(double) {}
    void set_rtol(double) {}
};
struct Ctrl {
    void set_limiter(double, double) {}
    void set_safe_guards(double, double) {}
    double next_with_limiter(size_t order, double e) {
        check((g[done] == 1) & (order == 4) & (e == d[ERR]));
        d[LIM] = draw();
        return d[LIM];
    }
};
#define private public
#include "ode-iterator/sequent-iterator.hpp"
#include "ode-iterator/const-iterator.hpp"
#undef private
VX_EXPORT double h_seq(size_t n, double *dr, size_t *gg, double *dd, double h, double x) {
    hub::ode::SequentOdeIterator<Int, Err, Ctrl> it;
    draws = dr, n_draws = n, g = gg, d = dd;
    for (int k : {bad, ev, trial, sub, done}) g[k] = 0;
    d[H] = h, d[X0] = x, d[ST] = x;
    Sys s;
    return it.iterate(s, h);
}
struct One1 {
    void integrate(Sys &, double h) {
        g[ev] += 1;
        d[H] = h;
    }
};
VX_EXPORT double h_const(size_t *gg, double *dd, double h) {
    hub::ode::ConstOdeIterator<One1> it;
    g = gg, d = dd;
    g[ev] = 0;
    Sys s;
    return it.iterate(s, h);
}
