// Bulirsch-Stoer: constants, extrapolation, sub-stepping and order selection of the repository.
#include "vx.hpp"
#include "interaction/interaction.hpp"
#include "core-computation.hpp"
#include "dev-tools.hpp"
#include "integrator/symplectic/symplectic-integrator.hpp"
#define private public
#include "ode-iterator/Bulirsch-Stoer.hpp"
#undef private
using namespace vx;
using SA = T::ScalarArray;
struct Err {
    double a, r;
    Err(double x, double y) : a(x), r(y) {}
    void set_atol(double x) { a = x; }
    void set_rtol(double x) { r = x; }
};
struct Ctrl {
    void set_limiter(double, double) {}
    void set_safe_guards(double, double) {}
};
using DKD = hub::integrator::LeapFrogDKD<T>;
using KDK = hub::integrator::LeapFrogKDK<T>;
using BSD = hub::ode::BulirschStoer<DKD, Err, Ctrl>;
using BSK = hub::ode::BulirschStoer<KDK, Err, Ctrl>;
template <size_t N, bool K>
static void consts(double *coef, double *cost, size_t *h) {
    hub::ode::BulirschStoerConsts<double, N, K> c;
    for (size_t i = 0; i < N; ++i) {
        h[i] = c.h(i), cost[i] = c.cost(i);
        for (size_t j = 0; j < N; ++j) coef[i * N + j] = c.table_coef(i, j);
    }
}
VX_EXPORT void h_consts_dkd(double *coef, double *cost, size_t *h) { consts<8, false>(coef, cost, h); }
VX_EXPORT void h_consts_kdk(double *coef, double *cost, size_t *h) { consts<8, true>(coef, cost, h); }
VX_EXPORT void h_consts_long(double *coef, double *cost, size_t *h) { consts<13, false>(coef, cost, h); }
// sub-step results r0..r7, extrapolated one after the other; best: the results after every extrapolation
VX_EXPORT void h_extrapolate(size_t n, double *r0, double *r1, double *r2, double *r3, double *r4, double *r5, double *r6, double *r7, double *best, double *low) {
    BSD b;
    double *r[8] = {r0, r1, r2, r3, r4, r5, r6, r7};
    b.var_num_ = n;
    load(b.extrap_list_[0], r0, n), load(b.extrap_list_[1], r1, n), load(b.extrap_list_[2], r2, n), load(b.extrap_list_[3], r3, n);
    load(b.extrap_list_[4], r4, n), load(b.extrap_list_[5], r5, n), load(b.extrap_list_[6], r6, n), load(b.extrap_list_[7], r7, n);
    for (size_t k = 1; k <= 7; ++k) {
        b.extrapolate(k);
        for (size_t i = 0; i < n; ++i) best[8 * i + k] = b.extrap_list_[0][i];
        for (size_t i = 0; i < n; ++i) low[8 * i + k] = b.extrap_list_[1][i];
    }
}
// a system that writes down what it is asked to do
struct Log {
    double *drifts, *kicks;
    size_t nd = 0, nk = 0, bad = 0, last = 2;
    void drift(double h) {
        bad = last == 0 ? 1 : bad;
        last = 0;
        drifts[nd] = h;
        nd = nd + 1;
    }
    void kick(double h) {
        bad = last == 1 ? 1 : bad;
        last = 1;
        kicks[nk] = h;
        nk = nk + 1;
    }
};
template <class B>
static void nsteps(double h, size_t steps, double *drifts, double *kicks, size_t *num) {
    B b;
    Log l{drifts, kicks};
    b.integrate_by_n_steps(l, h, steps);
    num[0] = l.nd, num[1] = l.nk, num[2] = l.bad;
}
VX_EXPORT void h_nsteps_dkd(double h, size_t steps, double *drifts, double *kicks, size_t *num) { nsteps<BSD>(h, steps, drifts, kicks, num); }
VX_EXPORT void h_nsteps_kdk(double h, size_t steps, double *drifts, double *kicks, size_t *num) { nsteps<BSK>(h, steps, drifts, kicks, num); }
// the order of the next step; s: step_reject first_step, ideal and cost: the tables of the iterator
template <class B>
static double next(size_t k, size_t *rank, size_t first, size_t reject, double *ideal, double *cost) {
    B b;
    for (size_t i = 0; i < 8; ++i) b.ideal_step_size_[i] = ideal[i], b.cost_per_len_[i] = cost[i];
    b.ideal_rank_ = rank[0], b.first_step_ = first == 1, b.step_reject_ = reject == 1;
    double const h = b.set_next_iteration(k);
    rank[0] = b.ideal_rank_;
    return h;
}
VX_EXPORT double h_next_dkd(size_t k, size_t *rank, size_t first, size_t reject, double *ideal, double *cost) { return next<BSD>(k, rank, first, reject, ideal, cost); }
VX_EXPORT double h_next_kdk(size_t k, size_t *rank, size_t first, size_t reject, double *ideal, double *cost) { return next<BSK>(k, rank, first, reject, ideal, cost); }
VX_EXPORT size_t h_window(size_t k, size_t rank, size_t first) {
    BSD b;
    b.ideal_rank_ = rank, b.first_step_ = first == 1;
    return b.in_converged_window(k) ? 1 : 0;
}
VX_EXPORT size_t h_diverged(size_t k, size_t rank, size_t first, double error) {
    BSD b;
    b.ideal_rank_ = rank, b.first_step_ = first == 1;
    return b.is_diverged_anyhow(error, k) ? 1 : 0;
}
VX_EXPORT void h_tol(double atol, double rtol, double *out) {
    BSD b;
    b.set_atol(atol), b.set_rtol(rtol);
    out[0] = b.err_checker_.a, out[1] = b.err_checker_.r;
}
// sub-steps of the free-function form: func(x, dxdt, t) with dxdt_i = f(x_i, t)
static void rhs(SA const &x, SA &d, double t) {
    for (size_t i = 0; i < x.size(); ++i) d[i] = vx_uf2(1, x[i], t);
}
template <size_t steps>
static double midpoint(size_t n, double h, double t, double *x, double *out) {
    BSD b;
    load(b.input_, x, n);
    SA o;
    load(o, out, n);
    double time = t;
    b.integrate_by_n_steps(rhs, o, time, h, steps);
    store(out, o);
    return time;
}
#define MID(s) VX_EXPORT double h_mid##s(size_t n, double h, double t, double *x, double *out) { return midpoint<s>(n, h, t, x, out); }
MID(1) MID(2) MID(3) MID(5) MID(8) MID(12)
