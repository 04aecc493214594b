// IAS15's corrector/retry loop against arbitrary systems, predictor errors, step errors and controllers.
#include "vx.hpp"
#include "interaction/interaction.hpp"
#include "core-computation.hpp"
#include "dev-tools.hpp"
#include "integrator/Gauss-Radau.hpp"
#include "vxone.hpp"
enum { phase, bad, ev, done, warm, evals, nG };
static size_t *g;
enum { H, E6, LAST, ERR, RAT, LIM, LMIN, nD };
static double *d;
static double *draws;
static size_t n_draws;
static void check(bool ok) { g[bad] = ok ? g[bad] : 1; }
#ifdef VX_NATIVE
static double draw(double settle) {  // a finite sample repeats; in the end the trial succeeds
    double const x = g[ev] < 60 ? draws[g[ev] % n_draws] : settle;
    g[ev] += 1;
    return x;
}
#else
static double draw(double) {
    double const x = draws[g[ev]];
    g[ev] += 1;
    return x;
}
#endif
struct Sys {
    int dummy = 0;
};
static void next_trial(double ratio) {
    d[H] = d[H] * ratio;
    g[phase] = 0;
}
// the integrator: only its calls matter here (its own contracts are P15)
struct Tables {
    One const *q;
    One const &operator[](size_t i) const { return q[i]; }
};
namespace hub::integrator {
    template <>
    class GaussRadau<Tm> {
       public:
        SPACEHUB_USING_TYPE_SYSTEM_OF(Tm);
        static constexpr size_t order{GaussRadau<vx::T>::order};
        One dy_, db_, tab_[7];
        void correct(Sys &, double h) {
            check((g[phase] == 0) & (h == d[H]) & (g[done] == 0));
            g[phase] = 1;
        }
        One const &dy_h() const { return dy_; }
        One const &diff_b6() const { return db_; }
        Tables b() const { return Tables{tab_}; }
        void evaluate(Sys &, double h) {
            check((g[phase] == 5) & (h == d[H]));
            g[evals] += 1;
            g[phase] = 6;
        }
        void predict(double q) {
            check(((g[phase] == 7) & (q == d[LIM])) | ((g[phase] == 9) & (q == d[RAT])));
            g[done] = g[phase] == 7 ? 1 : 0;
            d[H] = g[phase] == 7 ? d[H] : d[H] * d[RAT];
            g[phase] = g[phase] == 7 ? 8 : 0;
        }
    };
}  // namespace hub::integrator
using GR = hub::integrator::GaussRadau<Tm>;
static GR *gr;
struct Err {
    void set_atol(double) {}
    void set_rtol(double) {}
    double error(One const &a, One const &b) {
        check((g[phase] == 1) & (&a == &gr->dy_) & (&b == &gr->db_));
        d[E6] = draw(0.5);
        bool const window = (d[E6] < 1.0) | (d[E6] >= d[LAST]);
        d[LAST] = window ? hub::math::max_value<double>::value : d[E6];
        g[phase] = window ? 2 : 0;
        return d[E6];
    }
};
struct Ctrl {
    void set_limiter(double, double) {}
    void set_safe_guards(double, double) {}
    double next(size_t order, double e) {
        check((g[phase] == 3) & (order == 7) & (e == d[ERR]));
        g[phase] = 4;
        d[RAT] = draw(d[LMIN] + 1);
        return d[RAT];
    }
    double limiter_min() {
        check(g[phase] == 4);
        bool const ok = d[RAT] > d[LMIN];
        bool const again = (!ok) & (g[warm] == 1);
        d[H] = (ok | again) ? d[H] : d[H] * d[RAT];
        g[phase] = ok ? 5 : (again ? 9 : 0);
        return d[LMIN];
    }
    double limiter(double r) {
        check((g[phase] == 6) & (r == d[RAT]));
        g[phase] = 7;
        d[LIM] = draw(1);
        return d[LIM];
    }
};
#define private public
#include "ode-iterator/IAS15.hpp"
#undef private
using IAS = hub::ode::IAS15<GR, Err, Ctrl>;
namespace hub::ode {
    template <>
    template <>
    double IAS15<GR, Err, Ctrl>::calc_step_error<One, One, Sys>(One const &dy, One const &b6, Sys const &, double h) const {
        check((g[phase] == 2) & (h == d[H]) & (&dy == &gr->dy_) & (&b6 == &gr->tab_[6]));
        g[phase] = 3;
        d[ERR] = draw(1);
        return d[ERR];
    }
}  // namespace hub::ode
VX_EXPORT double h_ias(size_t n, double *dr, size_t *gg, double *dd, double h, double last, double lmin, size_t warmed) {
    IAS it;
    draws = dr, n_draws = n, g = gg, d = dd, gr = &it.integrator_;
    for (int k : {phase, bad, ev, done, evals}) g[k] = 0;
    d[H] = h, d[LMIN] = lmin, d[LAST] = last, g[warm] = warmed;
    it.last_PC_error_ = last, it.warmed_up = warmed == 1;
    Sys s;
    double const r = it.iterate(s, h);
    check((it.warmed_up == true) & (it.last_PC_error_ == hub::math::max_value<double>::value));
    return r;
}
