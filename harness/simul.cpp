// Simulator::run against arbitrary particle systems, ODE iterators and callbacks.
// The particle system, the iterator and the callbacks are stubs that only run a monitor:
// every event is checked against the documented order and the monitor cells are the postcondition.
//   std::function<R(A...)> is replaced by vx_function (an arbitrary callback number `id` of list `kind`),
//   std::vector of such callbacks by vx_vector (a list of any length); printing is dropped.
#include "vx.hpp"
#include <fstream>
#include <iomanip>
#include <sstream>
#include "interaction/interaction.hpp"
#include "core-computation.hpp"
#include "dev-tools.hpp"
#include "IO.hpp"
enum { nS, nO, nE, nC, cS, cO, cE, cC, pre, steps, bad, fired, any, nG };
static size_t *g;        // counters
enum { dNext, dEnd, dRtol, dH, dAtol, dTol, dT, nD };
static double *d;
static double *g_time, *g_scale, *g_next;   // after k steps: time, step scale, step size returned
static size_t g_len;
static void check(bool ok) { g[bad] = ok ? g[bad] : 1; }
struct PS {
    using TypeSet = vx::VTypes<double>;
    template <class T>
    using Container = vx::Arr<T>;
    using Scalar = double;
    using StateScalar = double;
    using ScalarArray = Container<double>;
    using StateScalarArray = Container<double>;
    using IntArray = Container<int>;
    using IdxArray = Container<size_t>;
    using Vector = vx::V3;
    using StateVector = vx::V3;
    using VectorArray = Container<Vector>;
    using StateVectorArray = Container<Vector>;
    struct Particle {};
    static constexpr int regu_type = 1;
    double t0;
    size_t mark;
    ScalarArray mass_;
    VectorArray pos_;
    PS(double t, int const &) : t0(t), mark(7) {}
    double time() const { return g_time[g[steps]]; }
    double step_scale() const { return g_scale[g[steps]]; }
    ScalarArray const &mass() const { return mass_; }
    VectorArray const &pos() const { return pos_; }
    void pre_iter_process() {
        check((g[pre] == 0) & (g[cO] == g[nO]) & (g[cC] == g[nC]) & (g[cE] == 0));
        g[pre] = 1;
    }
    void post_iter_process() {
        check(g[pre] == 2);
        g[pre] = 0, g[cO] = 0, g[cC] = 0;
    }
};
static double proposed() {
    double rest = (d[dEnd] - g_time[g[steps]]) * g_scale[g[steps]];
    return std::abs(d[dNext]) <= std::abs(rest) ? d[dNext] : rest;
}
static bool time_up() { return !(std::abs((g_time[g[steps]] - d[dEnd]) / d[dEnd]) > d[dRtol]); }
struct It {
    double iterate(PS &p, double h) {
        check((g[pre] == 1) & (g[fired] == 0) & (p.mark == 7));
        check(h == proposed());                                                        // the step asked for, cut at the end time
        check(!time_up());   // not at the end yet
        g[pre] = 2;
        d[dNext] = g_next[g[steps]];
        g[steps] += 1;
        return d[dNext];
    }
    void set_atol(double x) { d[dAtol] = x; }
    void set_rtol(double x) { d[dTol] = x; }
};
enum { START, OP, END, COND };
static bool event(size_t kind, size_t id, PS &p, double h) {
    check((p.mark == 7) & (g[pre] == 0));
    if (kind == START) {
        check((id == g[cS]) & (g[cS] < g[nS]) & (g[steps] == 0) & (g[cO] == 0) & (g[cE] == 0) & (g[cC] == 0) & (h == d[dNext]));
        g[cS] += 1;
    } else if (kind == COND) {
        check((id == g[cC]) & (g[cC] < g[nC]) & (g[cS] == g[nS]) & (g[cO] == 0) & (g[cE] == 0) & (g[fired] == 0) & (h == d[dNext]));
        g[cC] += 1;
        bool r = vx_uf2(1, static_cast<double>(g[steps]), static_cast<double>(id)) > 0.5;
        g[fired] = r ? 1 : g[fired];
        return r;
    } else if (kind == OP) {
        // before a step: with the step that is about to be made; after the last one: once more
        bool const at_end = time_up() | (g[fired] == 1);
        check((id == g[cO]) & (g[cO] < g[nO]) & (g[cS] == g[nS]) & (g[cE] == 0));
        check(at_end | ((g[cC] == g[nC]) & (h == proposed())));
        check(!at_end | (h == d[dNext]));
        g[cO] += 1;
    } else {
        check((id == g[cE]) & (g[cE] < g[nE]) & (g[cS] == g[nS]) & (g[cO] == g[nO]) & (h == d[dNext]));
        check(time_up() | (g[fired] == 1));
        g[cE] += 1;
    }
    return false;
}
namespace std {
    template <class F>
    struct vx_function;
    template <class R, class... A>
    struct vx_function<R(A...)> {
        size_t kind, id;
        R operator()(PS &p, double h) const { return static_cast<R>(event(kind, id, p, h)); }
    };
    template <class T>
    struct vx_vector {
        size_t n = 0, kind = 0;
        mutable T cur{0, 0};         // the element looked at
        T const &at(size_t i) const {
            cur.kind = kind, cur.id = i;
            return cur;
        }
        struct iterator {
            using iterator_category = std::forward_iterator_tag;
            using value_type = T;
            using difference_type = std::ptrdiff_t;
            using pointer = T const *;
            using reference = T const &;
            vx_vector const *v;
            size_t i;
            T const &operator*() const { return v->at(i); }
            T const *operator->() const { return &v->at(i); }
            iterator &operator++() { return ++i, *this; }
            iterator operator++(int) { return {v, i++}; }
            bool operator==(iterator const &o) const { return i == o.i; }
            bool operator!=(iterator const &o) const { return i != o.i; }
        };
        using const_iterator = iterator;
        iterator begin() const { return {this, 0}; }
        iterator end() const { return {this, n}; }
        iterator cbegin() const { return {this, 0}; }
        iterator cend() const { return {this, n}; }
        T const &operator[](size_t i) const { return at(i); }
        size_t size() const { return n; }
        bool empty() const { return n == 0; }
        template <class... X>
        void emplace_back(X &&...);
        void fill(size_t m, size_t k) { n = m, kind = k; }
    };
}  // namespace std
namespace hub {
    template <class... A>
    void vx_print(A &&...) {}
}  // namespace hub
#define vector vx_vector
#define function vx_function
#define print vx_print
#define private public
#include "simulator.hpp"
#undef private
#undef print
#undef function
#undef vector
using Sim = hub::Simulator<PS, It>;
// r: step_size end_time atol rtol time_rtol
VX_EXPORT void h_run(size_t n, double *times, double *scales, double *nexts, size_t nmass, double *mass, double *pos, double *r, int end_set,
                     size_t *gg, double *dd, size_t NS, size_t NO, size_t NE, size_t NC) {
    g = gg, d = dd, g_time = times, g_scale = scales, g_next = nexts, g_len = n;
    for (int k : {cS, cO, cE, cC, pre, steps, bad, fired, any}) g[k] = 0;
    g[nS] = NS, g[nO] = NO, g[nE] = NE, g[nC] = NC;
    Sim s(times[0], int(0));
    vx::load(s.particles_.mass_, mass, nmass);
    vx::load(s.particles_.pos_, pos, nmass);
    Sim::RunArgs a;
    a.step_size = r[0], a.atol = r[2], a.rtol = r[3], a.time_rtol = r[4];
    if (end_set) a.add_stop_condition(r[1]);
    a.start_opts_.fill(g[nS], START);
    a.opts_.fill(g[nO], OP);
    a.stop_opts_.fill(g[nE], END);
    a.stop_cond_.fill(g[nC], COND);
    d[dEnd] = end_set ? r[1] : hub::unit::T_hubble;
    d[dRtol] = r[4];
#ifdef VX_NATIVE
    times[n - 1] = d[dEnd];   // the sample has no further step
#endif
    d[dNext] = r[0] == 0 ? 0.1 * hub::calc::calc_step_scale(s.particles_) * hub::calc::calc_fall_free_time(s.particles_.mass(), s.particles_.pos()) : r[0];
    s.run(a);
    d[dT] = s.step_size_;
    g[any] = time_up() | (g[fired] == 1) ? 1 : 0;
}
