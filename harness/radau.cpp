// Gauss-Radau predictor/corrector of the repository on arbitrary tables and derivatives.
#include "vx.hpp"
#include "interaction/interaction.hpp"
#include "core-computation.hpp"
#include "dev-tools.hpp"
#define private public
#include "integrator/Gauss-Radau.hpp"
#undef private
using namespace vx;
using SA = T::ScalarArray;
using GR = hub::integrator::GaussRadau<T>;
using hub::integrator::Radau;
#define P7(x) double *x##0, double *x##1, double *x##2, double *x##3, double *x##4, double *x##5, double *x##6
#define L7(t, x) load(t[0], x##0, n), load(t[1], x##1, n), load(t[2], x##2, n), load(t[3], x##3, n), load(t[4], x##4, n), load(t[5], x##5, n), load(t[6], x##6, n)
#define S7(t, x) store(x##0, t[0]), store(x##1, t[1]), store(x##2, t[2]), store(x##3, t[3]), store(x##4, t[4]), store(x##5, t[5]), store(x##6, t[6])
// the system that is integrated: only remembers the state it was given
struct Sys {
    SA *state;
    double *deriv[8];     // derivative at the start and at the seven nodes
    double **at;
    size_t evals = 0, n;
    double **seen = nullptr;   // states met at the nodes
    void read_from_scalar_array(SA const &s) { *state = s; }
    void write_to_scalar_array(SA &s) { s = *state; }
    void evaluate_general_derivative(SA &d) {
        d.resize(n);
        double const *src = *at;
        for (size_t i = 0; i < n; ++i) d[i] = src[i];
        if (evals > 0 && seen) {
            double *to = seen[evals - 1];
            for (size_t i = 0; i < n; ++i) to[i] = (*state)[i];
        }
        ++at;
        ++evals;
    }
};
// the work arrays of an integrator that has seen a system of n variables; contents do not matter
static void prep(GR &r, size_t n) {
    r.var_num_ = n;
    r.dydh0_.resize(n), r.dydh_.resize(n), r.tmp_array_.resize(n), r.dg_array_.resize(n), r.tmp_state_.resize(n);
}
VX_EXPORT void h_g2b(size_t n, P7(g), P7(b)) {
    std::array<SA, 7> G, B;
    L7(G, g), L7(B, b);
    Radau::transform_g2b(G, B);
    S7(B, b);
}
VX_EXPORT void h_b2g(size_t n, P7(b), P7(g)) {
    std::array<SA, 7> G, B;
    L7(G, g), L7(B, b);
    Radau::transform_b2g(B, G);
    S7(G, g);
}
VX_EXPORT void h_predict(size_t n, double q, P7(b), P7(o), P7(g)) {
    GR r;
    prep(r, n);
    L7(r.b_, b), L7(r.old_b_, o), L7(r.g_, g);
    r.predict(q);
    S7(r.b_, b), S7(r.old_b_, o), S7(r.g_, g);
}
VX_EXPORT void h_integrate_to(size_t n, double h, size_t stage, P7(b), double *in, double *d0, double *out) {
    GR r;
    prep(r, n);
    L7(r.b_, b), load(r.input_, in, n), load(r.dydh0_, d0, n);
    SA st;
    load(st, out, n);
    Sys s;
    s.state = &st;
    r.integrate_to(s, h, stage);
    store(out, st);
}
VX_EXPORT void h_evaluate(size_t n, double h, P7(b), double *in, double *d0, double *out) {
    GR r;
    prep(r, n);
    L7(r.b_, b), load(r.input_, in, n), load(r.dydh0_, d0, n);
    SA st;
    load(st, out, n);
    Sys s;
    s.state = &st;
    r.evaluate(s, h);
    store(out, st);
}
static inline void update(size_t n, size_t stage, double *d0, double *d1, P7(b), P7(g), double *dg) {
    GR r;
    prep(r, n);
    L7(r.b_, b), L7(r.g_, g), load(r.dg_array_, dg, n);
    SA Y0, Y1;
    load(Y0, d0, n), load(Y1, d1, n);
    r.update_b_table(Y0, Y1, stage);
    S7(r.b_, b), S7(r.g_, g), store(dg, r.dg_array_);
}
#define UPD(s)                                                                                            \
    VX_EXPORT void h_update##s(size_t n, double *d0, double *d1, P7(b), P7(g), double *dg) {              \
        update(n, s, d0, d1, b0, b1, b2, b3, b4, b5, b6, g0, g1, g2, g3, g4, g5, g6, dg);                 \
    }
UPD(0) UPD(1) UPD(2) UPD(3) UPD(4) UPD(5) UPD(6)
// one corrector sweep: the derivatives met are f0 at the start and f1..f7 at the nodes
VX_EXPORT size_t h_correct(size_t n, double h, double *f0, double *f1, double *f2, double *f3, double *f4, double *f5, double *f6, double *f7, P7(b), P7(g), P7(s), double *state) {
    GR r;
    prep(r, n);
    L7(r.b_, b), L7(r.g_, g);
    double *seen[7] = {s0, s1, s2, s3, s4, s5, s6};
    SA st;
    load(st, state, n);
    double *f[8] = {f0, f1, f2, f3, f4, f5, f6, f7};
    Sys s;
    s.state = &st, s.at = f, s.n = n, s.seen = seen;
    r.correct(s, h);
    S7(r.b_, b), S7(r.g_, g);
    store(state, st);
    return s.evals;
}
// corrector sweep and step for one variable whose derivative is the polynomial sum p_k t^k of the time since the start of the step
VX_EXPORT void h_poly(double h, double *p, double *g, double *state) {
    GR r;
    prep(r, 1);
    for (size_t k = 0; k < 7; ++k) r.b_[k].resize(1), load(r.g_[k], g + k, 1);
    Radau::transform_g2b(r.g_, r.b_);
    SA st;
    load(st, state, 1);
    double v[8];
    double *f[8];
    for (size_t k = 0; k < 8; ++k) {
        double const t = k == 0 ? 0.0 : Radau::h(k - 1);
        double s = p[14];
        for (int q = 13; q >= 0; --q) s = s * t + p[q];
        v[k] = s, f[k] = v + k;
    }
    Sys s;
    s.state = &st, s.at = f, s.n = 1;
    r.correct(s, h);
    r.evaluate(s, h);
    store(state, st);
}
