// The retry loops of the adaptive iterators against arbitrary systems, error estimates and controllers.
// A one-component state stands for any component; every call made by the loop is an event the monitor checks.
#include "vx.hpp"
#include "interaction/interaction.hpp"
#include "core-computation.hpp"
#include "dev-tools.hpp"
#include "integrator/symplectic/symplectic-integrator.hpp"
#include "vxone.hpp"
#define private public
#include "ode-iterator/Bulirsch-Stoer.hpp"
#undef private
enum { col, phase, coll, bad, ev, done, ideal, tries, nG };
static size_t *g;
enum { X0, H, ERR, RAT, INC0, INC, EXT0, EXT1, NH, RET, ST, T0, nD };
static double *d;
static double *draws;      // whatever the parts return, one after the other
static size_t *ranks;
static size_t n_draws;
static void check(bool ok) { g[bad] = ok ? g[bad] : 1; }
#ifdef VX_NATIVE
#define IDX(i) ((i) % n_draws)
#else
#define IDX(i) (i)
#endif
static double draw() {
    double const x = draws[IDX(g[ev])];
    g[ev] += 1;
    return x;
}
struct Err {
    Err(double, double) {}
    double error(One const &a, One const &b, One const &c) {
        check((g[phase] == 1) & (a[0] == d[X0]) & (b[0] == d[EXT1]) & (c[0] == d[EXT0]));
        g[phase] = 2;
        d[ERR] = draw();
        return d[ERR];
    }
};
struct Ctrl {
    void set_limiter(double, double) {}
    void set_safe_guards(double, double) {}
    double next(size_t order, double e) {
        check((g[phase] == 2) & (order == 2 * (g[col] - 1) + 1) & (e == d[ERR]));
        g[phase] = 3;
        d[RAT] = draw();
        return d[RAT];
    }
    double limiter(size_t order, double r) {
        check((g[phase] == 4) & (order == 2 * (g[col] - 1) + 1) & (r == d[NH] / d[H]));
        double const l = draw();
        d[RET] = d[H] * l;
        g[done] = d[ERR] <= 1.0 ? 1 : 0;      // the trial was within tolerance
        d[H] = d[ERR] <= 1.0 ? d[H] : d[RET];  // otherwise the next one uses the new step
        g[tries] += d[ERR] <= 1.0 ? 0 : 1;
        g[phase] = 0, g[col] = 0;
        return l;
    }
};
using DKD = hub::integrator::LeapFrogDKD<Tm>;
using BS = hub::ode::BulirschStoer<DKD, Err, Ctrl>;
struct Sys {
    using Scalar = double;
    One inc;
    void write_to_scalar_array(One &a) {
        check(d[ST] == d[X0]);
        a[0] = d[ST];
    }
    void read_from_scalar_array(One const &a) { d[ST] = a[0]; }
    One const &increment() const { return inc; }
    void collect_increment(bool b) { g[coll] = b ? 1 : 0; }
    void clear_increment() { inc[0] = 0; }
};
static void substeps(BS &b, double h, size_t steps) {
    check((g[done] == 0) & ((g[phase] == 0) | (g[phase] == 3)) & (h == d[H]) & (steps == b.consts_.h(g[col])));
    check((g[phase] == 0) == (g[col] <= 1));
    g[phase] = g[col] == 0 ? 0 : 5;
    d[INC] = draw();
    d[INC0] = g[col] == 0 ? d[INC] : d[INC0];
    g[col] += 1;
}
namespace hub::ode {
    template <>
    template <>
    void BulirschStoer<DKD, Err, Ctrl, 7>::integrate_by_n_steps<Sys>(Sys &p, double h, size_t steps) {
        check((g[coll] == 1) & (p.inc[0] == 0) & (d[ST] == d[X0]));
        substeps(*this, h, steps);
        p.inc[0] = d[INC];
        d[ST] = draw();
    }
    template <>
    void BulirschStoer<DKD, Err, Ctrl, 7>::integrate_by_n_steps(EvaluateFun, One &out, double time, double h, size_t steps) {
        check((input_[0] == d[X0]) & (time == d[T0]));
        substeps(*this, h, steps);
        out[0] = d[INC];
    }
    template <>
    void BulirschStoer<DKD, Err, Ctrl, 7>::extrapolate(size_t k) {
        check((g[phase] == 5) & (k == g[col] - 1) & (k >= 1) & (k < 8) & (extrap_list_[k][0] == d[INC]));
        check(extrap_list_[0][0] == (k == 1 ? d[INC0] : d[EXT0]));
        d[EXT0] = draw(), d[EXT1] = draw();
        extrap_list_[0][0] = d[EXT0], extrap_list_[1][0] = d[EXT1];
        g[phase] = 1;
    }
    template <>
    double BulirschStoer<DKD, Err, Ctrl, 7>::set_next_iteration(size_t k) {
        check((g[phase] == 3) & (k == g[col] - 1) & (step_reject_ == !(d[ERR] <= 1.0)));
        check((ideal_step_size_[k] == d[H] * d[RAT]) & (cost_per_len_[k] == consts_.cost(k) / (d[H] * d[RAT])));
        check(first_step_ | ((ideal_rank_ - 1 <= k) & (k <= ideal_rank_ + 1)));
        size_t const r = ranks[IDX(g[ev])];
        ideal_rank_ = r < 2 ? 2 : (r > 6 ? 6 : r);
        g[ideal] = ideal_rank_;
        d[NH] = draw();
        g[phase] = 4;
        return d[NH];
    }
}  // namespace hub::ode
static void start(double *dr, size_t *rk, size_t n, size_t *gg, double *dd, BS &b, double h, double x, size_t rank, size_t first) {
    draws = dr, ranks = rk, n_draws = n, g = gg, d = dd;
    for (int k : {col, phase, coll, bad, ev, done, tries}) g[k] = 0;
    d[H] = h, d[X0] = x, d[ST] = x;
    b.ideal_rank_ = rank, b.first_step_ = first == 1, g[ideal] = rank;
}
VX_EXPORT double h_bs(size_t n, double *dr, size_t *rk, size_t *gg, double *dd, double h, double x, size_t rank, size_t first) {
    BS b;
    start(dr, rk, n, gg, dd, b, h, x, rank, first);
    Sys s;
    double const r = b.iterate(s, h);
    g[phase] = (b.first_step_ == false) & (b.step_reject_ == false) & (b.ideal_rank_ >= 2) & (b.ideal_rank_ <= 6) & (b.iter_num_ == g[tries] + 1) & (b.rej_num_ == g[tries]) ? 1 : 0;
    return r;
}
VX_EXPORT double h_bsf(size_t n, double *dr, size_t *rk, size_t *gg, double *dd, double h, double x, size_t rank, size_t first, double *time) {
    BS b;
    start(dr, rk, n, gg, dd, b, h, x, rank, first);
    d[T0] = time[0];
    One data;
    data[0] = x;
    double const r = b.iterate(std::function<void(One const &, One &, double)>(), data, time[0], h);
    d[ST] = data[0];
    g[phase] = (b.first_step_ == false) & (b.step_reject_ == false) & (b.ideal_rank_ >= 2) & (b.ideal_rank_ <= 6) & (b.iter_num_ == g[tries] + 1) & (b.rej_num_ == g[tries]) ? 1 : 0;
    return r;
}
